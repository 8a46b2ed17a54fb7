// Loops and functions on which the rules of C19 are known to fire (bad_*) and not to fire (ok_*).
#include <cstddef>
#include <fstream>
#include <string>
#include <vector>
typedef std::vector<float> vec;

void ok_while(vec& v) { int i = 0; while(i < (int) v.size()) { v[i] = 0; i++; } }
void ok_continue(vec& v) { int i = 0; while(i < 4) { i++; if(v[i] > 0) continue; v[i] = 0; } }
void bad_continue(vec& v) { int i = 0; while(i < 4) { if(v[i] > 0) continue; v[i] = 0; i++; } }
void ok_scan(const std::string& s, std::vector<std::string>& out) {
    size_t pos = 0;
    while(pos != std::string::npos) { size_t end = s.find(',', pos); out.push_back(s.substr(pos, end)); pos = end == std::string::npos ? end : end + 1; }
}
void bad_scan(const std::string& s, std::vector<std::string>& out) {
    size_t pos = s.find(',');
    while(pos != std::string::npos) { out.push_back(s.substr(pos)); }
}
int ok_states(const std::vector<std::string>& a) {
    int state = 0; size_t i = 0;
    while(true) {
        if(state == 0) { if(i >= a.size()) state = 9; else if(a[i] == "-v") { state = 1; i++; } else i++; }
        else if(state == 1) { state = 0; }
        else if(state == 9) break;
    }
    return i;
}
int bad_states(const std::vector<std::string>& a) {
    int state = 0; size_t i = 0;
    while(true) {
        if(state == 0) { if(i >= a.size()) state = 9; else if(a[i] == "-v") { state = 1; } else i++; }
        else if(state == 1) { state = 0; }
        else if(state == 9) break;
    }
    return i;
}
float ok_down(const vec& v) { float s = 0; for(int i = (int) v.size() - 1; i >= 0; i--) s += v[i]; return s; }
float bad_down(const vec& v) { float s = 0; for(size_t i = v.size() - 1; i >= 0; i--) s += v[i]; return s; }
float bad_away(const vec& v, int n) { float s = 0; for(int i = 0; i < n; i--) s += v[0]; return s; }
void ok_grow(vec& v) { size_t n = v.size(); for(size_t i = 0; i < n; i++) v.push_back(v[i]); }
void bad_grow(vec& v) { for(size_t i = 0; i < v.size(); i++) v.push_back(v[i]); }
float bad_turns(float lon) { while(lon > 180) lon -= 360; return lon; }
float ok_turns(float lon) { int n = lon / 360; return lon - 360 * n; }
float ok_levels() { float s = 0; for(float x = 0; x < 1; x += 0.125f) s += x; return s; }
void ok_nested(vec& v) { for(int i = 0; i < 3; i++) { for(int j = 0; j < 3; j++) v[i] = j; } }
void bad_nested(vec& v) { for(int i = 0; i < 3; i++) { for(i = 0; i < 2; i++) v[i] = i; } }
float bad_pairs(const vec& v) { float s = 0; for(size_t i = 0; i < v.size() - 1; i++) s += v[i]; return s; }
float ok_pairs(const vec& v) { float s = 0; for(size_t i = 0; i + 1 < v.size(); i++) s += v[i]; return s; }
int ok_halves(int a, int b) { if(b - a <= 1) return a; int m = (a + b) / 2; return ok_halves(a, m) + ok_halves(m, b); }
int bad_same(int a, int b) { if(b - a <= 1) return a; return bad_same(a, b); }
int bad_always(int a) { return bad_always(a + 1); }
void ok_read(const char* name, vec& v) { std::ifstream f(name); float x; while(f >> x) v.push_back(x); }
