// functions with "bad" in their name must be reported by C10 (b10) or C11 (b11), the others by neither
#include <vector>
#include <memory>
#include <algorithm>
namespace gridpp {
typedef std::vector<float> vec;
enum Mode { A = 0, B = 1 };
class Tree {
   public:
      Tree(vec lats, vec lons, Mode type) : mLats(lats), mLons(lons), mType(type) {}
      Tree(const Tree& other) : mLats(other.mLats), mLons(other.mLons), mType(other.mType) {}
      Mode get_coordinate_type() const { return mType; }
      int near(float lat, float lon, bool match = true) const { for(int i = 0; i < mLats.size(); i++) if((match || mLats[i] != lat) && mLats[i] >= lat && mLons[i] >= lon) return i; return 0; }
      const vec& get_lats() const { return mLats; }
      const vec& get_lons() const { return mLons; }
   private:
      vec mLats, mLons;
      Mode mType;
};
class Points {
   public:
      Points(vec lats, vec lons, vec elevs, vec lafs, Mode type) : mTree(lats, lons, type), mLats(lats), mLons(lons), mElevs(elevs), mLafs(lafs) {}
      Points(const Points& other) : mTree(other.mTree), mLats(other.mLats), mLons(other.mLons), mElevs(other.mElevs), mLafs(other.mLafs) {}
      int near(float lat, float lon, bool match = true) const { return mTree.near(lat, lon, match); }
      int near_b10(float lat, float lon, bool match = true) const { return mTree.near(lon, lat, match); }
      const vec& get_lats() const { return mLats; }
      const vec& get_lons() const { return mLons; }
      const vec& get_elevs() const { return mElevs; }
      const vec& get_lafs() const { return mLafs; }
      Points subset(const std::vector<int>& I) const { vec a, b, c, d; for(int i = 0; i < I.size(); i++) { a.push_back(mLats[I[i]]); b.push_back(mLons[I[i]]); c.push_back(mElevs[I[i]]); d.push_back(mLafs[I[i]]); } return Points(a, b, c, d, mTree.get_coordinate_type()); }
      Points get_in_domain(const std::vector<int>& I) const { vec a, b, c, d; for(int i = 0; i < I.size(); i++) { a.push_back(mLats[I[i]]); b.push_back(mLons[I[i]]); c.push_back(mElevs[I[i]]); d.push_back(mLafs[I[i]]); } return Points(a, b, c, d, A); }   // bad 11
   private:
      Tree mTree;
      vec mLats, mLons, mElevs, mLafs;
};
class Curve {
   public:
      Curve(vec h, vec v, float min) : mH(h), mV(v), mMin(min) {}
      virtual ~Curve() {}
      virtual float corr(float x) const { if(x < mMin) return 0; return x * mH[0] * mV[0]; }
      virtual vec corr(const vec& x) const { vec r; for(int i = 0; i < x.size(); i++) r.push_back(corr(x[i])); return r; }
      virtual std::shared_ptr<Curve> clone() const { return std::make_shared<Curve>(mH, mV, mMin); }
   protected:
      vec mH, mV;
      float mMin;
};
class CurveSwapped : public Curve {
   public:
      CurveSwapped(vec h, vec v, float min) : Curve(h, v, min), mA(h), mB(v) {}
      float corr(float x) const { return mA[0] + mB[0] + x; }
      vec corr_b10_many(const vec& x) const { return x; }
      std::shared_ptr<Curve> clone() const { return std::make_shared<CurveSwapped>(mB, mA, mMin); }   // bad 11
   private:
      vec mA, mB;
};
class Pair {
   public:
      Pair(float a, float b) : mA(a), mB(b) {}
      float scale(float x) const { return mA * x + mB; }
      vec scale(const vec& x) const { vec r; for(int i = 0; i < x.size(); i++) r.push_back(mA * x[i]); return r; }   // bad 10: mB
   private:
      float mA, mB;
};
float ok_all(float a, Mode m, int n) { if(m == A) return a; for(int i = 0; i < n; i++) a += i; return a; }
float b10_ignored(float a, float b) { return a; }
float b10_only_checked(float a, float b) { if(b < 0) throw 1; return a; }
vec b10_size_only(const vec& a, const vec& b) { vec r(b.size()); for(int i = 0; i < b.size(); i++) r[i] = a[i]; return r; }
void ok_out(float a, vec& out) { out.clear(); out.push_back(a); }
float ok_delegate(float a, float b) { float x = ok_all(a, B, int(b)); return x; }
vec simple_gradient(const Points& p, float g) { vec r; for(int i = 0; i < p.get_lats().size(); i++) r.push_back(p.get_lats()[i] + p.get_elevs()[i] * g); return r; }
vec full_gradient(const Points& p, float g) { vec r; for(int i = 0; i < p.get_lats().size(); i++) r.push_back(p.get_lats()[i] * g); return r; }
vec apply(const vec& x, float lower, float upper) { vec r; for(int i = 0; i < x.size(); i++) r.push_back(std::min(std::max(x[i], lower), upper)); return r; }
float apply(float x, float lower, float upper) { vec v(1, x); return apply(v, lower, upper)[0]; }
std::vector<vec> apply_b10(const std::vector<vec>& x, float lower, float upper) { std::vector<vec> r; for(int i = 0; i < x.size(); i++) r.push_back(apply(x[i], upper, lower)); return r; }
float ok_roles(const Points& p, int i) { const vec& lats = p.get_lats(); vec lons = p.get_lons(); float lat = lats[i]; float lon = lons[i]; return p.near(lat, lon); }
float b10_swapped(const Points& p, float lat, float lon) { return p.near(lon, lat); }
float b11_lons(const Points& p, int i) { const vec& lats = p.get_lons(); return lats[i]; }
float b11_elev(const Points& p, const vec& lafs, int i) { float elev = p.get_lafs()[i]; return elev + lafs[0] + p.get_lats()[0]; }
float b11_diff(const Points& p, const vec& lafs, int i) { return p.get_elevs()[i] - lafs[i] + p.get_lats()[0]; }
Points b11_call(const Points& p) { vec lats = p.get_lats(); vec lons = p.get_lons(); vec elevs = p.get_elevs(); vec lafs = p.get_lafs(); return Points(lats, lons, lafs, elevs, A); }
class Tag {
   public:
      Tag(int a, vec b) : mA(a), mB(b) {}
      Tag(const Tag& o) : mA(o.mA) { mB.resize(o.mB.size()); for(int i = 0; i < o.mB.size(); i++) mB[i] = o.mB[i]; }
      Tag& operator=(Tag o) { std::swap(mB, o.mB); if(mB.size() > 0) std::swap(mA, o.mA); return *this; }   // bad 11
      float get() const { return mA + mB[0]; }
   private:
      int mA; vec mB;
};
class TagCopy {
   public:
      TagCopy(int a, vec b) : mA(a), mB(b) {}
      TagCopy(const TagCopy& o) { mB = o.mB; if(mB.size() == 0) return; mA = o.mA; }   // bad 11
      TagCopy& operator=(const TagCopy& o) { if(this == &o) return *this; mA = o.mA; if(o.mB.size() > 0) mB = o.mB; else mB = o.mB; return *this; }
      float get() const { return mA + mB[0]; }
   private:
      int mA; vec mB;
};
class TagOk {
   public:
      TagOk(int a, vec b) : mA(a), mB(b) {}
      TagOk& operator=(const TagOk& o) { if(this != &o) { TagOk t(o); std::swap(*this, t); } return *this; }
      float get() const { return mA + mB[0]; }
   private:
      int mA; vec mB;
};
}
