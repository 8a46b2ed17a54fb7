// Parallel regions on which the race rules must fire (bad_*) or stay quiet (ok_*).
#include <vector>
#include <algorithm>
typedef std::vector<float> vec;
typedef std::vector<vec> vec2;
static int g_counter = 0;
static float helper_static(float x) { static float last = 0; last = last + x; return last; }
static void put(vec& out, int i, float v) { out[i] = v; }
static void put_first(vec& out, float v) { out[0] = v; }
static int flat(int i, int j, int n) { return i * n + j; }
class Lazy { public: float get() const { if(!mReady) { mValue = 3; mReady = true; } return mValue; } private: mutable bool mReady; mutable float mValue; };

void bad_shared_scalar(const vec& in, vec& out) {
    float curr = 0; int n = in.size();
    #pragma omp parallel for
    for(int i = 0; i < n; i++) { curr = in[i]; out[i] = curr; }
}
void bad_no_for(const vec& in, vec& out) {
    int n = in.size();
    #pragma omp parallel
    for(int i = 0; i < n; i++) { out[i] = in[i]; }
}
void bad_neighbour(vec& out) {
    int n = out.size();
    #pragma omp parallel for
    for(int i = 1; i < n; i++) { out[i] = out[i-1] + 1; }
}
void bad_push(const vec& in, vec& out) {
    int n = in.size();
    #pragma omp parallel for
    for(int i = 0; i < n; i++) { out.push_back(in[i]); }
}
void bad_collapse(const vec2& in, vec& out) {
    int n = in.size(); int m = in[0].size();
    #pragma omp parallel for collapse(2)
    for(int i = 0; i < n; i++) for(int j = 0; j < m; j++) { out[i] = in[i][j]; }
}
void bad_transposed(const vec2& in, vec2& out) {
    int n = in.size();
    #pragma omp parallel for
    for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) { out[j][0] = in[i][j]; }
}
void bad_static(const vec& in, vec& out) {
    int n = in.size();
    #pragma omp parallel for
    for(int i = 0; i < n; i++) { out[i] = helper_static(in[i]); }
}
void bad_global(const vec& in, vec& out) {
    int n = in.size();
    #pragma omp parallel for
    for(int i = 0; i < n; i++) { g_counter++; out[i] = in[i]; }
}
void bad_mutable(const Lazy& l, vec& out) {
    int n = out.size();
    #pragma omp parallel for
    for(int i = 0; i < n; i++) { out[i] = l.get(); }
}
void bad_helper(const vec& in, vec& out) {
    int n = in.size();
    #pragma omp parallel for
    for(int i = 0; i < n; i++) { put_first(out, in[i]); }
}
void bad_reduction(const vec& in, float& res) {
    int n = in.size(); float s = 0;
    #pragma omp parallel for reduction(+:s)
    for(int i = 0; i < n; i++) { s += in[i]; }
    res = s;
}
void bad_firstprivate(const vec& in, vec& out) {
    int n = in.size(); float last = 0;
    #pragma omp parallel for firstprivate(last)
    for(int i = 0; i < n; i++) { out[i] = last; last = in[i]; }
}
void bad_flat(const vec2& in, vec& out) {
    int n = in.size(); int m = in[0].size();
    #pragma omp parallel for
    for(int i = 0; i < n; i++) for(int j = 0; j < m; j++) { out[i * n + j] = in[i][j]; }
}
void bad_buffer(const vec2& in, vec& out) {
    int n = in.size();
    vec buffer;
    #pragma omp parallel for
    for(int i = 0; i < n; i++) { buffer = in[i]; std::sort(buffer.begin(), buffer.end()); out[i] = buffer[0]; }
}
void bad_swapped_buffers(const vec2& in, vec2& out) {
    int n = in.size(); vec2 tmp(n);
    #pragma omp parallel for
    for(int i = 0; i < n; i++) { vec& r = tmp[i]; r = in[i]; std::sort(tmp[0].begin(), tmp[0].end()); out[i] = r; }
}
void bad_bool(const vec& in, std::vector<bool>& out) {
    int n = in.size();
    #pragma omp parallel for
    for(int i = 0; i < n; i++) { out[i] = in[i] > 0; }
}
void ok_rows(const vec2& in, vec2& out) {
    int n = in.size(); int m = in[0].size();
    #pragma omp parallel for collapse(2)
    for(int i = 0; i < n; i++) for(int j = 0; j < m; j++) { float c = in[i][j]; out[i][j] = c; }
}
void ok_flat(const vec2& in, vec& out) {
    int n = in.size(); int m = in[0].size();
    #pragma omp parallel for
    for(int i = 0; i < n; i++) for(int j = 0; j < m; j++) { out[flat(i, j, m)] = in[i][j]; }
}
void ok_divmod(const vec2& in, vec2& out) {
    int n = in.size(); int m = in[0].size();
    #pragma omp parallel for
    for(int k = 0; k < n * m; k++) { int i = k / m; int j = k % m; out[i][j] = in[i][j]; }
}
void ok_helper(const vec& in, vec& out) {
    int n = in.size();
    #pragma omp parallel for
    for(int i = 0; i < n; i++) { put(out, i, in[i]); }
}
void ok_ref(const vec2& in, vec2& out) {
    int n = in.size();
    #pragma omp parallel for
    for(int i = 0; i < n; i++) { vec& row = out[i]; for(int j = 0; j < row.size(); j++) row[j] = in[i][j]; std::sort(row.begin(), row.end()); }
}
void ok_block(const vec2& in, vec2& out) {
    int n = in.size();
    #pragma omp parallel
    {
        vec buffer;
        #pragma omp for
        for(int i = 0; i < n; i++) { buffer.clear(); for(float v : in[i]) buffer.push_back(v); out[i] = buffer; }
    }
}
void bad_block(const vec2& in, vec2& out) {
    int n = in.size();
    #pragma omp parallel
    {
        vec buffer;
        #pragma omp for
        for(int i = 0; i < n; i++) { for(float v : in[i]) buffer.push_back(v); out[i] = buffer; }
    }
}
void ok_count(const vec& in, int& res) {
    int n = in.size(); int c = 0;
    #pragma omp parallel for reduction(+:c)
    for(int i = 0; i < n; i++) { if(in[i] > 0) c++; }
    res = c;
}
void ok_atomic(const vec& in, int& res) {
    int n = in.size(); int c = 0;
    #pragma omp parallel for
    for(int i = 0; i < n; i++) {
        #pragma omp atomic
        c++;
    }
    res = c;
}
void ok_lambda(const vec& in, vec& out) {
    int n = in.size();
    auto f = [&](int i) { out[i] = in[i]; };
    #pragma omp parallel for
    for(int i = 0; i < n; i++) { f(i); }
}
