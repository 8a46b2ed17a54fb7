#include <vector>
#include <cmath>
#include <stdexcept>
namespace gridpp { static const float MV = NAN; bool is_valid(float v) { return !std::isnan(v); } }
typedef std::vector<float> vec;
typedef std::vector<vec> vec2;
vec2 init_vec2(int Y, int X, float v=gridpp::MV) { return vec2(Y, vec(X, v)); }
vec bad_continue(const vec& v) { vec out(v.size()); for(int i = 0; i < v.size(); i++) { if(!gridpp::is_valid(v[i])) continue; out[i] = 2 * v[i]; } return out; }
vec bad_if(const vec& v) { vec out(v.size(), 0); for(int i = 0; i < v.size(); i++) { if(v[i] > 0) out[i] = 2 * v[i]; } return out; }
vec2 bad_zero(const vec2& v) { vec2 out = init_vec2(v.size(), v[0].size(), 0); for(int i = 0; i < v.size(); i++) for(int j = 0; j < v[i].size(); j++) { if(gridpp::is_valid(v[i][j])) out[i][j] = 1; } return out; }
vec2 bad_resize(const vec2& v) { vec2 out(v.size()); for(int i = 0; i < v.size(); i++) { out[i].resize(v[i].size()); for(int j = 0; j < v[i].size(); j++) { if(gridpp::is_valid(v[i][j])) out[i][j] = 1; } } return out; }
vec bad_first(const vec& v) { vec out(v.size()); for(int i = 1; i < v.size(); i++) out[i] = v[i] - v[i-1]; return out; }
vec bad_last(const vec& v) { vec out(v.size()); int n = v.size(); for(int i = 0; i < n - 1; i++) out[i] = v[i+1] - v[i]; return out; }
void bad_out(const vec& v, vec& out) { out.clear(); out.resize(v.size()); for(int i = 0; i < v.size(); i++) if(v[i] > 0) out[i] = 1; }
vec bad_switch(const vec& v, int s) { vec out(v.size()); for(int i = 0; i < v.size(); i++) { switch(s) { case 1: out[i] = 1; break; case 2: out[i] = 2; break; } } return out; }
vec ok_else(const vec& v) { vec out(v.size()); for(int i = 0; i < v.size(); i++) { if(v[i] > 0) out[i] = 1; else out[i] = 2; } return out; }
vec ok_throw(const vec& v, int s) { vec out(v.size()); for(int i = 0; i < v.size(); i++) { if(s == 0) out[i] = 1; else if(s == 1) out[i] = 2; else throw std::invalid_argument("s"); } return out; }
vec ok_missing(const vec& v) { vec out(v.size(), gridpp::MV); for(int i = 0; i < v.size(); i++) { if(v[i] > 0) out[i] = 1; } return out; }
vec ok_two(const vec& v) { vec out(v.size()); for(int i = 0; i < v.size(); i++) out[i] = gridpp::MV; for(int i = 0; i < v.size(); i++) { if(v[i] > 0) out[i] = 1; } return out; }
vec ok_value(const vec& v, float d) { vec out(v.size(), d); for(int i = 0; i < v.size(); i++) { if(v[i] > 0) out[i] = 1; } return out; }
vec ok_count(const vec& v) { vec out(3, 0); for(int i = 0; i < v.size(); i++) { if(v[i] > 0) out[int(v[i])] += 1; } return out; }
vec2 ok_row(const vec2& v) { vec2 out(v.size()); for(int i = 0; i < v.size(); i++) out[i] = v[i]; return out; }
vec2 ok_local(const vec2& v) { vec2 out = init_vec2(v.size(), v[0].size()); vec2 tmp(v.size()); for(int x = 0; x < v[0].size(); x++) for(int y = 0; y < v.size(); y++) { if(v[y][x] > 0) out[y][x] = 1; } return out; }
vec ok_swap(const vec& v) { vec out(v.size(), 0); for(int x = 0; x < v.size(); x++) { float r = 1; if(v[x] > 0) { r = 2; out[x] = 3; continue; } out[x] = r; } return out; }
vec ok_first(const vec& v) { vec out(v.size()); out[0] = 0; int i = 0; while(i < v.size()) { out[i] = 1; i++; } for(int i = 0; i < v.size(); i++) out[i] = 1; return out; }
float bad_literal(float v) { if(!gridpp::is_valid(v)) return 0; return v * 2; }
vec bad_literal2(const vec& v) { vec out(v.size(), gridpp::MV); for(int i = 0; i < v.size(); i++) { if(gridpp::is_valid(v[i]) && v[i] > 0) out[i] = 1; else if(!gridpp::is_valid(v[i])) { out[i] = -1; } } return out; }
float bad_cond(float v, float w) { return gridpp::is_valid(v) && gridpp::is_valid(w) ? v + w : 0; }
float ok_literal(float v) { if(gridpp::is_valid(v) && v > 1) return 0; return v * 2; }
float ok_missing2(float v) { if(!gridpp::is_valid(v)) return gridpp::MV; return 0; }
vec bad_early(const vec& v, const vec& w) { vec out(v.size(), 0); if(w.size() == 0) return out; for(int i = 0; i < v.size(); i++) out[i] = v[i] + w[0]; return out; }
vec bad_condfill(const vec& v, int n) { vec out(v.size(), n > 3 ? 0 : gridpp::MV); for(int i = 0; i < v.size(); i++) if(gridpp::is_valid(v[i])) out[i] = v[i]; return out; }
vec bad_nodata(const vec2& v) { vec out(v.size(), gridpp::MV); for(int i = 0; i < v.size(); i++) { if(v[i].size() == 0) out[i] = 0; else out[i] = v[i][0]; } return out; }
vec bad_counted(const vec2& v) { vec out(v.size(), gridpp::MV); for(int i = 0; i < v.size(); i++) { int n = 0; float s = 0; for(int j = 0; j < v[i].size(); j++) { if(gridpp::is_valid(v[i][j])) { n++; s += v[i][j]; } } if(n > 0) out[i] = s / n; else out[i] = 0; } return out; }
vec bad_fallback(const vec& v) { vec out(v.size(), gridpp::MV); for(int i = 0; i < v.size(); i++) { float r = 0; if(gridpp::is_valid(v[i])) r = v[i] * 2; out[i] = r; } return out; }
float bad_fallback2(const vec& v) { float r = 0; if(v.size() > 0) { r = v[0]; } return r; }
vec ok_early(const vec& v, const vec& w) { int n = v.size(); vec out(n, 0); if(n == 0) return out; for(int i = 0; i < n; i++) out[i] = v[i] + w[0]; return out; }
vec ok_edge(const vec& v) { vec out(v.size(), gridpp::MV); for(int i = 0; i < v.size(); i++) { if(i == 0) out[i] = 0; else out[i] = v[i] - v[i-1]; } return out; }
vec ok_fallback(const vec& v) { vec out(v.size(), gridpp::MV); for(int i = 0; i < v.size(); i++) { float c = 0; if(gridpp::is_valid(v[i])) c = v[i] * 2; out[i] = v[0] + c; } return out; }
vec ok_fallback2(const vec& v) { vec out(v.size(), gridpp::MV); for(int i = 0; i < v.size(); i++) { float r = 0; if(gridpp::is_valid(v[i])) r = v[i] * 2; else r = gridpp::MV; out[i] = r; } return out; }
vec ok_maximum(const vec2& v) { vec out(v.size(), gridpp::MV); for(int i = 0; i < v.size(); i++) { float m = 0; for(int j = 0; j < v[i].size(); j++) { if(v[i][j] > m) m = v[i][j]; } out[i] = m; } return out; }
