#include <vector>
#include <cstdlib>
#include <ctime>
#include <iostream>
#include <sys/time.h>
enum Statistic { Mean, RandomChoice };
int counter = 0;
static const float table[3] = {1, 2, 3};
double clock_s() { timeval t; gettimeofday(&t, 0); return t.tv_sec; }
float bad_static(float x) { static float last = 0; float r = last; last = x; return r; }
float bad_static_init(float x) { static const float first = x; return first; }
float bad_global(float x) { counter++; return x; }
float bad_reads_global(float x) { return x + counter; }
float bad_rand(float x) { return x + rand(); }
float bad_time(float x) { double s = clock_s(); if(s > 5) return 0; return x; }
float bad_env(float x) { const char* s = getenv("X"); return s ? 0 : x; }
float bad_uninit(bool c) { float x; if(c) x = 1; return x; }
float bad_uninit_loop(const std::vector<float>& v) { int k; for(int i = 0; i < v.size(); i++) { if(v[i] > 3) k = i; } return v[k]; }
void bad_output(const std::vector<float>& v, std::vector<float>& out) { for(int i = 0; i < v.size(); i++) out.push_back(v[i]); }
void bad_input(const std::vector<float>& v) { const_cast<std::vector<float>&>(v)[0] = 3; }
class BadMember { public: BadMember(bool c) { if(c) m = 1; } int m; };
class Obj {
   public:
      Obj(float a) : m(a) { set(); }
      void set() { n = 1; }
      float bad_mutable() const { k++; return m; }
      float ok_get() const { return m; }
      float m; int n; mutable int k = 0;
};
float ok_static(int i) { static const float t[2] = {1, 2}; return t[i] + table[i]; }
float ok_clock(float x) { double s = clock_s(); x = x * 2; double e = clock_s(); std::cout << e - s << std::endl; return x; }
float draw(const std::vector<float>& v) { return v[rand() % v.size()]; }
float ok_rand(const std::vector<float>& v, Statistic s) { if(s == RandomChoice) return draw(v); return v[0]; }
float ok_rand2(const std::vector<float>& v, Statistic s) { switch(s) { case RandomChoice: { return draw(v); } default: return 0; } }
float ok_uninit(bool c) { float x; if(c) x = 1; else x = 2; return x; }
float ok_corr(bool c) { float x; if(c) x = 1; float y = 3; if(c) y = x; return y; }
float ok_early(int c) { float x; if(c == 1) { x = 1; } else if(c == 2) { x = 2; } else { throw 3; } return x; }
float ok_and(int n, const float* v) { int i; for(i = 0; i < n; i++) { if(v[i] > 1) break; } return i; }
void fill(float& x) { x = 1; }
float ok_out() { float x; fill(x); return x; }
void ok_output(const std::vector<float>& v, std::vector<float>& out) { out.clear(); for(int i = 0; i < v.size(); i++) out.push_back(v[i]); }
void ok_output2(const std::vector<float>& v, std::vector<float>& out) { std::vector<float> t; for(int i = 0; i < v.size(); i++) t.push_back(v[i]); out = t; }
