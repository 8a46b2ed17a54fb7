// Self-test of the alignment analysis (C12). b12_*: an element depends on other positions; g12_*: it does not.
#include <vector>
#include <algorithm>
#include <stdexcept>
namespace gridpp {
typedef std::vector<float> vec;
typedef std::vector<vec> vec2;
static const float MV = -999;
bool is_valid(float v);
bool is_valid(float v) { return v == v && v != MV; }
}
using namespace gridpp;
namespace {
    float b12_pick(const vec& x, int i) { return x[i] + x[0]; }
    float g12_pick_(const vec& x, int i) { return x[i]; }
    void g12_store_(vec& out, int i, float v) { out[i] = v; }
}
namespace gridpp {
    vec b12_carried(const vec& x) {
        vec out(x.size());
        float last = 0;
        for(int i = 0; i < x.size(); i++) {
            if(is_valid(x[i]))
                last = x[i];
            out[i] = last;
        }
        return out;
    }
    vec2 b12_transposed(const vec2& x) {
        vec2 out(x.size());
        for(int i = 0; i < x.size(); i++) {
            out[i].resize(x.size());
            for(int j = 0; j < x.size(); j++)
                out[i][j] = x[j][i];
        }
        return out;
    }
    vec2 b12_fixed(const vec2& x) {
        vec2 out(x.size());
        for(int i = 0; i < x.size(); i++)
            for(int j = 0; j < x[i].size(); j++)
                out[i].push_back(x[0][j]);
        return out;
    }
    vec b12_previous(const vec& x) {
        vec out(x.size());
        for(int i = 1; i < x.size(); i++)
            out[i] = x[i] - x[i - 1];
        return out;
    }
    vec b12_reduced(const vec& x) {
        vec out(x.size());
        float sum = 0;
        for(int i = 0; i < x.size(); i++)
            sum += x[i];
        for(int i = 0; i < x.size(); i++)
            out[i] = x[i] - sum;
        return out;
    }
    vec2 b12_stale(const vec2& x) {
        vec2 out(x.size());
        vec buffer(x[0].size(), MV);
        for(int i = 0; i < x.size(); i++) {
            for(int j = 0; j < x[i].size(); j++) {
                if(is_valid(x[i][j]))
                    buffer[j] = x[i][j];
            }
            out[i] = buffer;
        }
        return out;
    }
    vec b12_helper(const vec& x) {
        vec out(x.size());
        for(int i = 0; i < x.size(); i++)
            out[i] = b12_pick(x, i);
        return out;
    }
    vec b12_flag(const vec& x) {
        vec out(x.size(), MV);
        bool seen = false;
        for(int i = 0; i < x.size(); i++) {
            if(!is_valid(x[i]))
                seen = true;
            if(!seen)
                out[i] = x[i];
        }
        return out;
    }

    vec g12_plain(const vec& x) {
        vec out(x.size());
        for(int i = 0; i < x.size(); i++)
            out[i] = 2 * x[i];
        return out;
    }
    vec g12_hoisted(const vec& x) {
        vec out(x.size());
        float v;
        int i = 0;
        while(i < x.size()) {
            if(is_valid(x[i]))
                v = x[i];
            else
                v = 0;
            out[i] = v;
            ++i;
        }
        return out;
    }
    vec g12_helper(const vec& x) {
        vec out(x.size());
        for(int i = 0; i < x.size(); i++)
            g12_store_(out, i, g12_pick_(x, i));
        return out;
    }
    vec g12_peeled(const vec& x) {
        vec out(x.size());
        out[0] = x[0];
        for(int i = 1; i < x.size(); i++)
            out[i] = x[i];
        return out;
    }
    vec2 g12_flat(const vec2& x) {
        int nx = x[0].size();
        vec flat;
        for(int i = 0; i < x.size(); i++)
            for(int j = 0; j < nx; j++)
                flat.push_back(x[i][j]);
        vec2 out(x.size());
        for(int i = 0; i < x.size(); i++) {
            out[i].resize(nx);
            for(int j = 0; j < nx; j++)
                out[i][j] = flat[i * nx + j];
        }
        return out;
    }
    vec2 g12_collapsed(const vec2& x) {
        int nx = x[0].size();
        vec2 out = x;
        for(int k = 0; k < x.size() * nx; k++) {
            int i = k / nx;
            int j = k % nx;
            out[i][j] = x[i][j] + 1;
        }
        return out;
    }
    vec2 g12_buffer(const vec2& x) {
        vec2 out(x.size());
        vec buffer(x[0].size());
        for(int i = 0; i < x.size(); i++) {
            for(int j = 0; j < x[i].size(); j++)
                buffer[j] = x[i][j];
            out[i] = buffer;
        }
        return out;
    }
    vec2 g12_filled(const vec2& x) {
        vec2 out(x.size());
        vec buffer(x[0].size());
        for(int i = 0; i < x.size(); i++) {
            std::fill(buffer.begin(), buffer.end(), MV);
            for(int j = 0; j < x[i].size(); j++) {
                if(is_valid(x[i][j]))
                    buffer[j] = x[i][j];
            }
            out[i] = buffer;
        }
        return out;
    }
    vec2 g12_cleared(const vec2& x) {
        vec2 out;
        vec row;
        for(int i = 0; i < x.size(); i++) {
            row.clear();
            for(int j = 0; j < x[i].size(); j++)
                row.push_back(x[i][j]);
            out.push_back(row);
        }
        return out;
    }
    vec g12_ref(const vec& x) {
        vec out(x.size());
        int k = 0;
        for(const auto& v : x) {
            float& o = out[k];
            o = v;
            o *= 2;
            k++;
        }
        return out;
    }
    vec g12_lambda(const vec& x) {
        vec out(x.size());
        auto f = [&](int i) { out[i] = x[i]; };
        for(int i = 0; i < x.size(); i++)
            f(i);
        return out;
    }
    vec g12_transform(const vec& x) {
        vec out(x.size());
        std::transform(x.begin(), x.end(), out.begin(), [](float v) { return 2 * v; });
        return out;
    }
    vec2 g12_swapped(const vec2& x) {
        vec2 out = x;
        for(int j = 0; j < x[0].size(); j++)
            for(int i = 0; i < x.size(); i++)
                out[i][j] = x[i][j] * 3;
        return out;
    }
    vec g12_pointer(const vec& x) {
        vec out(x.size());
        const float* p = &x[0];
        for(int i = 0; i < x.size(); i++)
            out[i] = p[i];
        return out;
    }
    vec g12_back(const vec& x) {
        vec out;
        for(int i = 0; i < x.size(); i++) {
            out.push_back(x[i]);
            out.back() *= 2;
        }
        return out;
    }
    vec g12_skip(const vec& x) {
        vec out(x.size(), MV);
        for(int i = 0; i < x.size(); i++) {
            if(!is_valid(x[i]))
                continue;
            out[i] = x[i];
        }
        return out;
    }
    vec2 g12_throws(const vec2& x) {
        for(int i = 0; i < x.size(); i++)
            if(x[i][0] < 0)
                throw std::invalid_argument("negative");
        vec2 out = x;
        for(int i = 0; i < x.size(); i++)
            for(int j = 0; j < x[i].size(); j++)
                out[i][j] += 1;
        return out;
    }
    vec g12_blocks(const vec& x) {
        vec out(x.size());
        for(int b = 0; b < x.size(); b += 16)
            for(int i = b; i < std::min(b + 16, int(x.size())); i++)
                out[i] = x[i];
        return out;
    }
    vec g12_two(const vec& x) {
        vec out(x.size());
        for(int i = 0, j = 0; i < x.size(); i++, j++)
            out[i] = x[j];
        return out;
    }
}
