// Programs on which the rules of C15 are known to fire (bad_*) and not to fire (ok_*).
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <netcdf.h>
#include <cstdlib>
namespace Util { void error(std::string m) { abort(); } void warning(std::string m) { } }
void ok_handle(int status, std::string m) { if(status != NC_NOERR) Util::error(m); }
void ok_handle2(int status, std::string m) { if(status == NC_NOERR) return; Util::error(m); }
void ok_onlywarn(int status, std::string m) { if(status != NC_NOERR) Util::warning(m); }
bool ok_good(int status) { return status == NC_NOERR; }

void ok_direct(int f, int v, float* values) { ok_handle(nc_get_var_float(f, v, values), "x"); }
void ok_second(int f, int v, float* values) { int s = nc_get_var_float(f, v, values); ok_handle2(s, "x"); }
void ok_pred(int f, int v, float* values) { if(!ok_good(nc_get_var_float(f, v, values))) Util::error("x"); }
void ok_accum(int f, int v, float* values) { int s = nc_get_var_float(f, v, values); bool failed = s != NC_NOERR; if(failed) { throw 1; } }
void bad_dropped(int f, int v, float* values) { nc_get_var_float(f, v, values); }
void bad_replaced(int f, int v, float* values) { char name[100]; int s = nc_get_var_float(f, v, values); s = nc_inq_varname(f, v, name); ok_handle(s, "x"); }
void bad_warned(int f, int v, float* values) { int s = nc_get_var_float(f, v, values); ok_onlywarn(s, "x"); }
void bad_warned2(int f, int v, float* values) { int s = nc_get_var_float(f, v, values); if(s != NC_NOERR) Util::warning("x"); }
void bad_loop(int f, int n, float* values) { int s = NC_NOERR; for(int i = 0; i < n; i++) s = nc_put_var_float(f, i, values); ok_handle(s, "x"); }
void ok_loop(int f, int n, float* values) { int s = NC_NOERR; for(int i = 0; i < n; i++) { s = nc_put_var_float(f, i, values); ok_handle(s, "x"); } }
void bad_onepath(int f, int v, float* values, bool verbose) { int s = nc_put_var_float(f, v, values); if(verbose) ok_handle(s, "x"); }
void bad_sign(int f, int v, float* values) { int s = nc_put_var_float(f, v, values); if(s > 0) Util::error("x"); }
void bad_early(int f, int v, float* values) { int s = nc_put_var_float(f, v, values); if(s != NC_NOERR) return; ok_handle(s, "y"); }

// a missing attribute has a default
float ok_default(int f, int v) { float x; int s = nc_get_att_float(f, v, "scale", &x); if(s != NC_NOERR) x = 1; return x; }
float ok_ternary(int f, int v) { float x; int s = nc_get_att_float(f, v, "scale", &x); return s == NC_NOERR ? x : 1; }
float bad_default(int f, int v) { float x; int s = nc_get_att_float(f, v, "scale", &x); if(s != NC_NOERR) Util::warning("none"); return x; }
float bad_inverted(int f, int v) { float x; int s = nc_get_att_float(f, v, "scale", &x); if(s == NC_NOERR) x = 1; return x; }
bool ok_has(int f, std::string n) { int v; int s = nc_inq_varid(f, n.c_str(), &v); return s == NC_NOERR; }
int ok_find(int f, std::string n) { int v; if(nc_inq_varid(f, n.c_str(), &v) == NC_NOERR) return v; return -999; }
int bad_find(int f, std::string n) { int v = -999; nc_inq_varid(f, n.c_str(), &v); return v; }

// the outcome is passed on
int ok_pass(int f, int v, float* values) { return nc_get_var_float(f, v, values); }
void ok_usepass(int f, int v, float* values) { ok_handle(ok_pass(f, v, values), "x"); }
void bad_usepass(int f, int v, float* values) { ok_pass(f, v, values); }
bool ok_try(int f, int v, float* values) { int s = nc_get_var_float(f, v, values); if(s != NC_NOERR) return false; return true; }
void bad_usetry(int f, int v, float* values) { ok_try(f, v, values); }
void ok_usetry(int f, int v, float* values) { if(!ok_try(f, v, values)) Util::error("x"); }
std::vector<float> bad_silent(int f, int v, int n) { std::vector<float> r(n, -999); int s = nc_get_var_float(f, v, &r[0]); if(s != NC_NOERR) return r; return r; }
void ok_close(std::string n) { int f; int s = nc_open(n.c_str(), NC_NOWRITE, &f); if(s == NC_NOERR) nc_close(f); }
void bad_close(std::string n) { int f; int s = nc_open(n.c_str(), NC_WRITE, &f); if(s == NC_NOERR) nc_close(f); }

// text
float ok_text(std::string s) { std::stringstream ss(s); float v; bool status = (bool) (ss >> v); if(!status) Util::error("x"); return v; }
float ok_text2(std::string s) { std::stringstream ss(s); float v; if(!(ss >> v)) Util::error("x"); return v; }
float ok_text3(std::string s) { std::stringstream ss(s); float v; ss >> v; if(ss.fail()) Util::error("x"); return v; }
float ok_text4(std::string s) { std::stringstream ss(s); float v, sum = 0; while(ss >> v) sum += v; return sum; }
float bad_text(std::string s) { std::stringstream ss(s); float v; ss >> v; return v; }
float bad_text2(std::string s) { std::stringstream ss(s); float v; bool status = (bool) (ss >> v); if(!status) Util::warning("x"); return v; }
float bad_text3(std::string s) { std::stringstream ss(s); float v, w; bool status = (bool) (ss >> v); status = (bool) (ss >> w); return v; }

// output
void ok_write(std::string n) { std::ofstream o(n.c_str()); o << 3 << std::endl; o.close(); if(!o.good()) Util::error("x"); }
void ok_write2(std::string n) { std::ofstream o(n.c_str()); for(int i = 0; i < 3; i++) { o << i; } o << std::endl; if(!o) Util::error("x"); }
bool ok_write3(std::string n) { std::ofstream o(n.c_str()); o << 3; o.flush(); return o.good(); }
void ok_finish(std::ofstream& o) { o.close(); if(o.fail()) Util::error("x"); }
void ok_write4(std::string n) { std::ofstream o(n.c_str()); o << 3; ok_finish(o); }
void ok_body(std::ofstream& o) { o << 3; }
void ok_write5(std::string n) { std::ofstream o(n.c_str()); ok_body(o); ok_finish(o); }
void ok_write6(std::string n) { std::ofstream o; if(n != "") o.open(n.c_str()); if(n != "") { o << 3; } if(n != "") { o.close(); if(!o.good()) Util::error("x"); } }
void bad_write(std::string n) { std::ofstream o(n.c_str()); o << 3 << std::endl; o.close(); }
void bad_write2(std::string n) { std::ofstream o(n.c_str()); if(!o.good()) Util::error("x"); o << 3 << std::endl; }
void bad_write3(std::string n) { std::ofstream o(n.c_str()); o << 3; if(!o.good()) Util::warning("x"); }
void bad_write4(std::string n) { std::ofstream o(n.c_str()); ok_body(o); }
void bad_write5(std::string n) { ok_write3(n); }
void ok_use3(std::string n) { if(!ok_write3(n)) throw 1; }
