// Schemes with options, well-behaved and not (property C13).
#include <string>
#include <vector>
#include <sstream>
#include <set>
namespace Util {
   extern float MV;
   void error(std::string m);
   bool isValid(float f);
   std::string formatDescription(std::string key, std::string text);
}
class Options {
   public:
      template <class T> bool getValue(std::string k, T& v) const {
         for(int i = 0; i < mKeys.size(); i++) {
            if(mKeys[i] == k) {
               std::stringstream ss(mKeys[i]);
               ss >> v;
               mUsed.insert(k);
               return true;
            }
         }
         return false;
      }
      template <class T> void getRequiredValue(std::string k, T& v) const { if(!getValue(k, v)) Util::error("missing"); }
      template <class T> bool getValues(std::string k, std::vector<T>& v) const {
         for(int i = 0; i < mKeys.size(); i++)
            if(mKeys[i] == k)
               return true;      // unmarked
         return false;
      }
      bool hasValue(const std::string& k) const;
      bool check() const;
      void addOptions(std::string s);
      void clear();
   private:
      std::vector<std::string> mKeys;
      mutable std::set<std::string> mUsed;
};
class Scheme {
   public:
      Scheme(const Options& o) { o.getValue("debug", mDebug); }
      virtual ~Scheme() {}
      virtual float run(float x) const = 0;
      static Scheme* getScheme(std::string iName, const Options& iOptions);
      static std::string getDescriptions();
   protected:
      bool mDebug;
};
using Util::formatDescription;
enum Kind { KindAdd, KindMultiply };
class Good : public Scheme {
   public:
      Good(const Options& iOptions) : Scheme(iOptions), mRadius(3), mLow(Util::MV), mKind(KindAdd), mFast(true), mScale(1), mOther(2) {
         iOptions.getValue("radius", mRadius);
         if(iOptions.getValue("low", mLow) && mLow > 3)
            Util::error("low");
         std::string kind = "add";
         iOptions.getValue("kind", kind);
         if(kind == "add") mKind = KindAdd;
         else if(kind == "multiply") mKind = KindMultiply;
         else Util::error("kind");
         more(iOptions);
         if(!iOptions.getValue("other", mOther))
            mOther = mScale;
         iOptions.getValues("list", mList);
         if(!iOptions.check())
            mRadius = mRadius + 0;
      }
      void more(const Options& iOptions) {
         iOptions.getValue("fast", mFast);
         iOptions.getRequiredValue("scale", mScale);
      }
      float run(float x) const { return mFast && !mDebug ? mScale * x + mRadius + mOther + mList[0] : mKind == KindAdd ? mLow + x : mLow * x; }
      std::string name() const { return "good"; }
      static std::string description() {
         std::stringstream ss;
         ss << formatDescription("-c good", "does") << formatDescription("   radius=3", "") << formatDescription("   low=undef", "") << formatDescription("   kind=add", "");
         ss << formatDescription("   fast=1", "") << formatDescription("   scale=required", "") << formatDescription("   other=undef", "");
         return ss.str();
      }
   private:
      int mRadius; float mLow; Kind mKind; bool mFast; float mScale, mOther; std::vector<float> mList;
};
class Table : public Scheme {     // keys from a table: nothing can be said
   public:
      Table(const Options& iOptions) : Scheme(iOptions), mA(0) {
         const char* keys[] = {"a", "b"};
         for(int i = 0; i < 2; i++) { std::string k = keys[i]; iOptions.getValue(k, mA); }
         iOptions.check();
      }
      float run(float x) const { return mA; }
      static std::string description() { return formatDescription("-c table", "") + formatDescription("   a=0", ""); }
   private:
      float mA;
};
class Unread : public Scheme {
   public:
      Unread(const Options& iOptions) : Scheme(iOptions), mA(0) { iOptions.getValue("aa", mA); iOptions.check(); }
      float run(float x) const { return mA; }
      static std::string description() { return formatDescription("-c unread", "") + formatDescription("   a=0", ""); }
   private:
      float mA;
};
class Default : public Scheme {
   public:
      Default(const Options& iOptions) : Scheme(iOptions), mA(0) { iOptions.getValue("a", mA); iOptions.check(); }
      float run(float x) const { return mA; }
      static std::string description() { return formatDescription("-c default", "") + formatDescription("   a=1", ""); }
   private:
      float mA;
};
class Shared : public Scheme {
   public:
      Shared(const Options& iOptions) : Scheme(iOptions), mA(0) { iOptions.getValue("a", mA); iOptions.getValue("b", mA); iOptions.check(); }
      float run(float x) const { return mA; }
      static std::string description() { return formatDescription("-c shared", "") + formatDescription("   a=0", ""); }
   private:
      float mA;
};
class Lost : public Scheme {
   public:
      Lost(const Options& iOptions) : Scheme(iOptions), mA(0) { if(iOptions.getValue("a", mA)) mA = 3; iOptions.check(); }
      float run(float x) const { return mA; }
      static std::string description() { return formatDescription("-c lost", ""); }
   private:
      float mA;
};
class Ineffective : public Scheme {
   public:
      Ineffective(const Options& iOptions) : Scheme(iOptions), mA(0) { iOptions.getValue("a", mA); if(mA < 0) Util::error("a"); iOptions.check(); }
      float run(float x) const { return x; }
      static std::string description() { return formatDescription("-c ineffective", ""); }
   private:
      float mA;
};
class Unchecked : public Scheme {
   public:
      Unchecked(const Options& iOptions) : Scheme(iOptions), mUncheckedValue(0) { iOptions.getValue("a", mUncheckedValue); if(mUncheckedValue > 3) iOptions.check(); }
      float run(float x) const { return mUncheckedValue; }
      static std::string description() { return formatDescription("-c unchecked", ""); }
   private:
      float mUncheckedValue;
};
class Late : public Scheme {
   public:
      Late(const Options& iOptions) : Scheme(iOptions), mA(0) {
         iOptions.check();
         iOptions.getValue("a", mA);
      }
      float run(float x) const { return mA; }
      static std::string description() { return formatDescription("-c late", ""); }
   private:
      float mA;
};
class Word : public Scheme {
   public:
      Word(const Options& iOptions) : Scheme(iOptions), mWord(KindAdd) {
         std::string s;
         if(iOptions.getValue("kind", s)) {
            if(s == "add") mWord = KindMultiply;
            else if(s == "multiply") mWord = KindAdd;
         }
         iOptions.check();
      }
      float run(float x) const { return mWord; }
      static std::string description() { return formatDescription("-c word", ""); }
   private:
      Kind mWord;
};
class Wrong : public Scheme {
   public:
      Wrong(const Options& iOptions) : Scheme(iOptions) { iOptions.check(); }
      float run(float x) const { return x; }
      static std::string description() { return formatDescription("-c wrong", ""); }
};
Scheme* Scheme::getScheme(std::string iName, const Options& iOptions) {
   if(iName == "good") return new Good(iOptions);
   else if(iName == "table") return new Table(iOptions);
   else if(iName == "unread") return new Unread(iOptions);
   else if(iName == "default") return new Default(iOptions);
   else if(iName == "shared") return new Shared(iOptions);
   else if(iName == "lost") return new Lost(iOptions);
   else if(iName == "ineffective") return new Ineffective(iOptions);
   else if(iName == "unchecked") return new Unchecked(iOptions);
   else if(iName == "late") return new Late(iOptions);
   else if(iName == "worded") return new Word(iOptions);     // name
   Util::error("name");
   return NULL;
}
std::string Scheme::getDescriptions() {
   return Good::description() + Table::description() + Unread::description() + Default::description() + Shared::description() + Lost::description()
      + Ineffective::description() + Unchecked::description() + Word::description() + Wrong::description();
}
class Parser {
   public:
      Parser(const std::vector<std::string>& argv) {
         std::string name = "";
         Options good, bad;
         int state = 0;
         int index = 0;
         while(true) {
            if(state == 0) { name = argv[index]; index++; state = 1; }
            else if(state == 1) { good.addOptions(argv[index]); index++; state = 2; }
            else if(state == 2) { bad.addOptions(argv[index]); index++; state = 3; }
            else if(state == 3) {
               if(name != "") {
                  mNames.push_back(name);
                  mGood.push_back(good);
                  mBad.push_back(bad);
               }
               name = "";
               good.clear();
               state = index < argv.size() ? 0 : 4;
            }
            else break;
         }
      }
   private:
      std::vector<std::string> mNames;
      std::vector<Options> mGood, mBad;
};
void Options::clear() {
   mKeys.clear();
}
class Machine {
   public:
      Machine(const std::vector<std::string>& argv) {
         enum State { START, NAME, FILEA, METHOD, ADD, NEXT, DONE, FAIL };
         State state = START;
         std::string name, file, method, error;
         Options good, bad;
         int index = 0;
         while(true) {
            if(state == START) { state = NAME; }
            else if(state == NAME) { name = argv[index]; index++; if(argv[index] == "f") state = FILEA; else if(argv[index] == "m") state = METHOD; else state = NEXT; }
            else if(state == FILEA) { bad.addOptions(argv[index]); index++; state = argv[index] == "m" ? METHOD : NEXT; }     // carried
            else if(state == METHOD) { method = argv[index]; good.addOptions(argv[index]); index++; state = ADD; }
            else if(state == ADD) {
               if(method == "x") { state = FAIL; error = "x"; }
               if(state != FAIL) {
                  mGood.push_back(good);
                  mBad.push_back(bad);
                  mMethods.push_back(method);
                  good.clear();
                  method = "";
                  bad.clear();
                  state = argv[index] == "m" ? METHOD : NEXT;
               }
            }
            else if(state == NEXT) {
               if(name == "") { state = FAIL; error = "name"; }
               else {
                  mNames.push_back(name);
                  name = "";
                  state = index < argv.size() ? NAME : DONE;
               }
            }
            else if(state == DONE) break;
            else if(state == FAIL) { Util::error(error); }
         }
      }
   private:
      std::vector<std::string> mNames, mMethods;
      std::vector<Options> mGood, mBad;
};
