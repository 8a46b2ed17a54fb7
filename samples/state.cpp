#include <vector>
#include <string>
#include <map>
#include <cstdlib>
#include <ctime>
#include <iostream>
typedef std::vector<std::vector<float> > vec2;
namespace Util { float MV = -999; bool isValid(float v) { return v != MV; } }
class File {
   public:
      File() : mN(0), mTag(0) { createNewTag(); }
      void ok_setLats(const vec2& iLats) { if(mLats != iLats) createNewTag(); mLats = iLats; }
      void ok_setLats2(const vec2& iLats) { if(mLats == iLats) return; mLats = iLats; createNewTag(); }
      void ok_setLats3(const vec2& iLats) { mLats = iLats; createNewTag(); }
      void bad_setLons(const vec2& iLons) { mLons = iLons; }
      void bad_setLons2(const vec2& iLons) { if(mLons.size() != iLons.size()) createNewTag(); mLons = iLons; }
      void bad_setLons3(const vec2& iLons, int i) { if(i > 0) { mLons = iLons; return; } mLons = iLons; createNewTag(); }
      int getTag() const { return mTag; }
   protected:
      void createNewTag() const { mTag = mNextTag; mNextTag++; }
   private:
      vec2 mLats, mLons;
      int mN;
      mutable int mTag;
      static int mNextTag;
};
int File::mNextTag = 0;
class ParameterFile {
   public:
      ParameterFile() : mMax(0) {}
      void recomputeTree() const { mLocations.clear(); for(int i = 0; i < mPar.size(); i++) mLocations.push_back(mPar[i]); }
      void bad_recomputeTree(int i) const { if(i > 1) mLocations.clear(); for(int i = 0; i < mPar.size(); i++) mLocations.push_back(mPar[i]); }
      bool has(float x) const { return mLocations.size() > x; }
      void ok_add(float x) const { if(!has(x)) mLocations.push_back(x); }
   private:
      mutable std::vector<float> mLocations;
      std::vector<float> mPar;
      int mMax;
};
class Calibrator {
   public:
      Calibrator() : mA(1), mLast(0) {}
      float bad_mutable(float x) const { mLast = x; return x; }
      float bad_static(float x) const { static float sum = 0; sum += x; return sum; }
      float bad_clock(float x) const { return x + time(NULL) % 2; }
      float bad_random(float x) const { return x * rand(); }
      float ok_mv(float x) const { if(x == Util::MV) return 0; return x * mA; }
      float bad_unset(bool c) const { float s; if(c) s = 1; return s; }
   private:
      float mA;
      mutable float mLast;
};
class Bad { public: Bad() {} float get() const { return mX; } private: float mX; };
class Record { public: Record() {} float x; };
float use() { Record r; r.x = 2; return r.x; }
class Cache {
   public:
      static void ok_put(const File& a, const File& b, int i) { mCache[a.getTag()][b.getTag()] = i; }
      static bool ok_has(const File& a, const File& b) { std::map<int, std::map<int, int> >::const_iterator it = mCache.find(a.getTag()); return it != mCache.end() && it->second.find(b.getTag()) != it->second.end(); }
      static void bad_put(const File& a, const File& b, int i) { mCache[a.getTag()][a.getTag()] = i; }
      static void bad_swap(const File& a, const File& b, int i) { ok_put(b, a, i); }
      static bool bad_has(const File& a, const File& b) { std::map<int, std::map<int, int> >::const_iterator it = mCache.find(a.getTag()); return it != mCache.end() && it->second.size() > 0; }
      static bool ok_ask(const File& a, const File& b) { return ok_has(a, b); }
   private:
      static std::map<int, std::map<int, int> > mCache;
};
std::map<int, std::map<int, int> > Cache::mCache;
