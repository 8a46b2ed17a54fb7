// Programs on which the rules of C17 are known to fire (bad_*) and not to fire (ok_*).
#include <vector>
#include <algorithm>
#include <cassert>
#include <cmath>
#include <boost/shared_ptr.hpp>
typedef std::vector<std::vector<float> > vec2;
class Field {
   public:
      float operator()(unsigned int y, unsigned int x, unsigned int e) const;
      float& operator()(unsigned int y, unsigned int x, unsigned int e);
      std::vector<float> operator()(unsigned int y, unsigned int x) const;
};
typedef boost::shared_ptr<Field> FieldPtr;
class File {
   public:
      FieldPtr getField(int v, int t) const;
      vec2 getElevs() const;
      vec2 getLandFractions() const;
};
class Util {
   public:
      static float MV;
      static bool isValid(float v) { return !std::isnan(v) && v != MV; }
};

void ok_guard(const Field& a, Field& b) { float v = a(0, 0, 0); if(Util::isValid(v)) b(0, 0, 0) = v * 2; }
void bad_none(const Field& a, Field& b) { float v = a(0, 0, 0); b(0, 0, 0) = v * 2; }
void bad_other(const Field& a, Field& b) { float v = a(0, 0, 0); float w = a(0, 1, 0); if(Util::isValid(v)) b(0, 0, 0) = v * w; }
void bad_either(const Field& a, Field& b) { float v = a(0, 0, 0); float w = a(0, 1, 0); if(Util::isValid(v) || Util::isValid(w)) b(0, 0, 0) = v * w; }
void ok_early(const Field& a, Field& b) { float v = a(0, 0, 0); if(!Util::isValid(v)) return; b(0, 0, 0) = v - 1; }
void ok_continue(const Field& a, Field& b) { for(int i = 0; i < 3; i++) { float v = a(0, i, 0); if(!Util::isValid(v)) continue; b(0, i, 0) = v - 1; } }
void bad_parenthesis(const Field& a, const File& f, Field& b) { vec2 elevs = f.getElevs(); float x = elevs[0][0], y = elevs[0][1]; if(Util::isValid(x && Util::isValid(y))) b(0, 0, 0) = x - y; }
void ok_parenthesis(const Field& a, const File& f, Field& b) { vec2 elevs = f.getElevs(); float x = elevs[0][0], y = elevs[0][1]; if(Util::isValid(x) && Util::isValid(y)) b(0, 0, 0) = x - y; }
void ok_place(const Field& a, Field& b) { if(Util::isValid(a(1, 2, 0))) b(1, 2, 0) = a(1, 2, 0) * 2; }
void bad_place(const Field& a, Field& b) { if(Util::isValid(a(1, 2, 0))) b(1, 2, 0) = a(1, 3, 0) * 2; }
void bad_changed(const Field& a, Field& b) { int i = 0; if(Util::isValid(a(1, i, 0))) { i = i + 1; b(1, 2, 0) = a(1, i, 0) * 2; } }
void bad_field(FieldPtr f) { (*f)(0, 0, 0) += 2; }
void ok_field(FieldPtr f) { if(Util::isValid((*f)(0, 0, 0))) (*f)(0, 0, 0) += 2; }
void ok_copied(const Field& a, Field& b) { float v = a(0, 0, 0); float w = v; if(Util::isValid(v)) b(0, 0, 0) = w * 2; }
void ok_flag(const Field& a, Field& b) { float v = a(0, 0, 0); bool good = Util::isValid(v); if(good) b(0, 0, 0) = v * 2; }
void ok_cond(const Field& a, Field& b) { float v = a(0, 0, 0); b(0, 0, 0) = Util::isValid(v) ? v + 1 : Util::MV; }
void bad_cond(const Field& a, Field& b) { float v = a(0, 0, 0); b(0, 0, 0) = Util::isValid(v) ? Util::MV : v + 1; }
void ok_positive(const Field& a, Field& b) { float v = a(0, 0, 0); if(v > 0) b(0, 0, 0) = v * 2; }
void bad_less(const Field& a, Field& b) { float v = a(0, 0, 0); if(v < 5) b(0, 0, 0) = 2; }
void bad_log(const Field& a, Field& b) { float v = a(0, 0, 0); float w = log(v); if(Util::isValid(v)) b(0, 0, 0) = w; }

// smallest and largest
float ok_range(const Field& a) { float min = Util::MV, max = Util::MV; for(int i = 0; i < 5; i++) { float v = a(0, i, 0); if(Util::isValid(v)) { if(!Util::isValid(min) || v < min) min = v; if(!Util::isValid(max) || v > max) max = v; } } if(Util::isValid(min) && Util::isValid(max)) return max - min; return Util::MV; }
float bad_range(const Field& a) { float min = Util::MV, max = Util::MV; for(int i = 0; i < 5; i++) { float v = a(0, i, 0); if(Util::isValid(v)) { if(!Util::isValid(min) || v < min) min = v; else if(!Util::isValid(max) || v > max) max = v; } } if(Util::isValid(min)) return max - min; return Util::MV; }
float ok_together(const Field& a, const vec2& lafs) { float min = Util::MV, t = Util::MV; for(int i = 0; i < 5; i++) { float v = a(0, i, 0); if(Util::isValid(v) && (!Util::isValid(min) || lafs[0][i] < min)) { min = lafs[0][i]; t = v; } } if(Util::isValid(min)) return t * 2; return Util::MV; }
float bad_apart(const Field& a, const vec2& lafs) { float min = Util::MV, t = Util::MV; for(int i = 0; i < 5; i++) { float v = a(0, i, 0); if(!Util::isValid(min) || lafs[0][i] < min) { min = lafs[0][i]; t = v; } } if(Util::isValid(min)) return t * 2; return Util::MV; }
float ok_poisoned(const Field& a) { float total = 0; for(int i = 0; i < 5; i++) { float v = a(0, i, 0); if(Util::isValid(total) && Util::isValid(v)) total += v; else total = Util::MV; } return total; }
float bad_poisoned(const Field& a) { float total = 0; for(int i = 0; i < 5; i++) { float v = a(0, i, 0); if(Util::isValid(v)) total += v; else total = Util::MV; } return total; }

// functions
float ok_scale(float v) { return v * 2; }
float ok_tolerant(float v) { if(!Util::isValid(v)) return Util::MV; return v * 2; }
void ok_passed(const Field& a, Field& b) { b(0, 0, 0) = ok_tolerant(a(0, 0, 0)); }
void bad_passed(const Field& a, Field& b) { b(0, 0, 0) = ok_scale(a(0, 0, 0)); }
void bad_result(const Field& a, Field& b) { b(0, 0, 0) = ok_tolerant(a(0, 0, 0)) + 1; }
void ok_result(const Field& a, Field& b) { float v = a(0, 0, 0); if(Util::isValid(v)) b(0, 0, 0) = ok_tolerant(v) + 1; }
float ok_never(float p) { if(p < 0) return Util::MV; return sqrt(p); }
void bad_never(float p, Field& b) { b(0, 0, 0) = ok_never(p) + 1; }
float ok_mean(const std::vector<float>& v) { float t = 0; int n = 0; for(int i = 0; i < v.size(); i++) if(Util::isValid(v[i])) { t += v[i]; n++; } return n > 0 ? t / n : Util::MV; }
float bad_mean(const Field& f) { std::vector<float> v; for(int i = 0; i < 3; i++) v.push_back(f(0, i, 0)); float t = 0; for(int i = 0; i < v.size(); i++) t += v[i]; return t; }
float ok_filtered(const Field& f) { std::vector<float> v; for(int i = 0; i < 3; i++) { float x = f(0, i, 0); if(Util::isValid(x)) v.push_back(x); } float t = 0; for(int i = 0; i < v.size(); i++) t += v[i]; return t; }
void ok_cases(float a, float b, Field& o) { float v = Util::MV; if(a != 0 && b != 0) v = 1; else if(a == 0) v = 2; else if(b == 0) v = 3; o(0, 0, 0) = v * 2; }
void bad_cases(float a, float b, Field& o) { float v = Util::MV; if(a != 0 && b != 0) v = 1; else if(a == 0) v = 2; o(0, 0, 0) = v * 2; }

// conditions in functions
bool ok_both(float a, float b) { return Util::isValid(a) && Util::isValid(b); }
void ok_predicate(const Field& a, Field& b) { float v = a(0, 0, 0), w = a(0, 1, 0); if(ok_both(v, w)) b(0, 0, 0) = v * w; }
void bad_predicate(const Field& a, Field& b) { float v = a(0, 0, 0), w = a(0, 1, 0), x = a(0, 2, 0); if(ok_both(v, x)) b(0, 0, 0) = v * w; }
bool ok_gone(float a) { return !Util::isValid(a); }
void ok_notgone(const Field& a, Field& b) { float v = a(0, 0, 0); if(ok_gone(v)) return; b(0, 0, 0) = v + 1; }

// places, training data and parameters
class Location { public: float lat() const; float lon() const; float elev() const; };
float bad_location(const Location& l) { if(Util::isValid(l.lat())) return l.elev() * 2; return 0; }
float ok_location(const Location& l) { if(Util::isValid(l.elev())) return l.elev() * 2; return 0; }
typedef std::pair<float, std::vector<float> > ObsEns;
float bad_training(const std::vector<ObsEns>& d) { float t = 0; for(int i = 0; i < d.size(); i++) t += d[i].first; return t; }
float ok_training(const std::vector<ObsEns>& d) { float t = 0; for(int i = 0; i < d.size(); i++) { float o = d[i].first; std::vector<float> e = d[i].second; if(Util::isValid(o) && Util::isValid(e[0])) t += o - e[0]; } return t; }
class Parameters { public: Parameters(std::vector<float> v); float operator[](unsigned int i) const; int size() const; bool isValid() const; };
class ParameterFile { public: Parameters getParameters(int t) const; };
float bad_parameters(const ParameterFile& f) { Parameters p = f.getParameters(0); return p[0] * 2; }
float ok_parameters(const ParameterFile& f) { Parameters p = f.getParameters(0); if(p.isValid()) return p[0] * 2; return Util::MV; }
float ok_each(const ParameterFile& f) { Parameters p = f.getParameters(0); for(int i = 0; i < p.size(); i++) if(!Util::isValid(p[i])) return Util::MV; return p[0] + p[1]; }
float ok_every(const ParameterFile& f) { Parameters p = f.getParameters(0); bool good = true; for(int i = 0; i < p.size(); i++) good = good && Util::isValid(p[i]); if(good) return p[0] + p[1]; return Util::MV; }
float bad_some(const ParameterFile& f) { Parameters p = f.getParameters(0); bool good = false; for(int i = 0; i < p.size(); i++) good = good || Util::isValid(p[i]); if(good) return p[0] + p[1]; return Util::MV; }
class Scheme { public: Scheme() : mLength(Util::MV) {} float ok_length(float d) const { if(Util::isValid(mLength)) return exp(-d / mLength); return 1; } float bad_length(float d) const { return exp(-d / mLength); } float mLength; };
