// Programs on which the rules of C18 are known to fire (bad_*) and not to fire (ok_*).
#include <vector>
#include <string>
#include <cmath>
#include <cstdlib>
#include <stdexcept>
typedef std::vector<float> vec;
enum Statistic { Mean = 0, Min = 10, Median = 20, Max = 30, Quantile = 40, Std = 50, Variance = 60, Sum = 70, Count = 80, RandomChoice = 90, Unknown = -1 };
enum ComparisonOperator { Lt = 0, Leq = 10, Gt = 20, Geq = 30 };
enum Extrapolation { OneToOne = 0, MeanSlope = 10, NearestSlope = 20, Zero = 30, Unchanged = 40 };
enum Metric { Ets = 0, Ts = 1, Kss = 20, Pc = 30, Bias = 40, Hss = 50 };
float calc_quantile(const vec& values, float quantile);
float other(float v);

// ---- refusing
float ok_refuse(const vec& values, Statistic s) {
    if(s == Mean) return values[0] / values.size();
    else if(s == Sum) return values[0];
    throw std::invalid_argument("s");
}
float bad_default(const vec& values, Statistic s) {
    if(s == Mean) return values[0] / values.size();
    return values[0];
}
float bad_fallthrough(const vec& values, Statistic s) {
    float v = 0;
    if(s == Mean) v = values[0] / values.size();
    else if(s == Sum) v = values[0];
    return v;
}
float ok_switch(const vec& values, Statistic s) {
    switch(s) {
        case Mean: return values[0] / values.size();
        case Sum: return values[0];
        default: throw std::invalid_argument("s");
    }
}
float bad_switch(const vec& values, Statistic s) {
    switch(s) {
        case Mean: return values[0] / values.size();
        default: return values[0];
    }
}
float ok_handed(const vec& values, Statistic s) { return ok_refuse(values, s); }
float bad_fixed(const vec& values, Statistic s) {
    if(s == Unknown) throw std::invalid_argument("s");
    return ok_refuse(values, Mean);
}
static bool known(Statistic s) { return s == Mean || s == Sum; }
float ok_helper(const vec& values, Statistic s) {
    if(!known(s)) throw std::invalid_argument("s");
    float v = values[0];
    if(s == Mean) v /= values.size();
    return v;
}
// ---- one choice carried out as another
float bad_same(const vec& values, Statistic s) {
    if(s == Mean || s == Sum) return values[0] / values.size();
    else if(s == Min) return calc_quantile(values, 0);
    throw std::invalid_argument("s");
}
float bad_exchanged(const vec& values, Statistic s) {
    if(s == Sum) return values[0] / values.size();
    else if(s == Mean) return values[0];
    throw std::invalid_argument("s");
}
float bad_level(const vec& values, Statistic s) {
    if(s == Max) return calc_quantile(values, 0);
    else if(s == Min) return calc_quantile(values, 1);
    throw std::invalid_argument("s");
}
float ok_level(const vec& values, Statistic s) {
    float q = 0;
    if(s == Max) q = 1;
    else if(s == Median) q = 0.5;
    else if(s != Min) throw std::invalid_argument("s");
    return calc_quantile(values, q);
}
float ok_std(const vec& values, Statistic s) {
    if(s != Std && s != Variance) throw std::invalid_argument("s");
    float v = values[0] * values[0];
    return s == Std ? sqrt(v) : v;
}
float bad_std(const vec& values, Statistic s) {
    if(s != Std && s != Variance) throw std::invalid_argument("s");
    float v = values[0] * values[0];
    return s == Variance ? sqrt(v) : v;
}
float bad_count(const vec& values, Statistic s) {
    float total = 0;
    float n = 0;
    for(int i = 0; i < (int) values.size(); i++) { total += values[i]; n++; }
    if(s == Count) return total + 1;
    else if(s == Sum) return total;
    throw std::invalid_argument("s");
}
float ok_count(const vec& values, Statistic s) {
    float total = 0;
    float n = 0;
    for(int i = 0; i < (int) values.size(); i++) { total += values[i]; n++; }
    if(s == Count) return n;
    else if(s == Sum) return total;
    throw std::invalid_argument("s");
}
float ok_random(const vec& values, Statistic s) {
    if(s == RandomChoice) return values[rand() % values.size()];
    else if(s == Sum) return values[0];
    throw std::invalid_argument("s");
}
float bad_random(const vec& values, Statistic s) {
    if(s == RandomChoice) return values[0];
    else if(s == Sum) return values[0] + 1;
    throw std::invalid_argument("s");
}
// ---- comparisons
float ok_compare(const vec& values, float threshold, ComparisonOperator op) {
    float n = 0;
    for(int i = 0; i < (int) values.size(); i++) {
        if(op == Leq) { if(values[i] <= threshold) n++; }
        else if(op == Lt) { if(values[i] < threshold) n++; }
        else if(op == Geq) { if(threshold <= values[i]) n++; }
        else if(op == Gt) { if(!(values[i] > threshold)) continue; n++; }
        else throw std::invalid_argument("op");
    }
    return n;
}
float bad_compare(const vec& values, float threshold, ComparisonOperator op) {
    float n = 0;
    for(int i = 0; i < (int) values.size(); i++) {
        if(op == Leq) { if(values[i] < threshold) n++; }
        else if(op == Gt) { if(values[i] > threshold) n++; }
        else throw std::invalid_argument("op");
    }
    return n;
}
float bad_turned(const vec& values, float threshold, ComparisonOperator op) {
    float n = 0;
    for(int i = 0; i < (int) values.size(); i++) {
        if(op == Leq) { if(threshold <= values[i]) n++; }
        else if(op == Gt) { if(values[i] > threshold) n++; }
        else throw std::invalid_argument("op");
    }
    return n;
}
// ---- continuations of curves
float ok_curve(float x, const vec& curve_ref, const vec& curve_fcst, Extrapolation e) {
    float slope = 1;
    if(e == Unchanged) return x;
    else if(e == Zero) slope = 0;
    else if(e == OneToOne) slope = 1;
    else if(e == MeanSlope) slope = curve_ref[0] - curve_ref[curve_ref.size() - 1];
    else if(e == NearestSlope) slope = curve_ref[1] - curve_ref[0];
    else throw std::invalid_argument("e");
    return curve_ref[0] + slope * (x - curve_fcst[0]);
}
float bad_curve(float x, const vec& curve_ref, const vec& curve_fcst, Extrapolation e) {
    float slope = 1;
    if(e == Unchanged) return x;
    else if(e == Zero) slope = 1;
    else if(e == OneToOne) slope = 0;
    else throw std::invalid_argument("e");
    return curve_ref[0] + slope * (x - curve_fcst[0]);
}
float bad_slopes(float x, const vec& curve_ref, const vec& curve_fcst, Extrapolation e) {
    float slope = 1;
    if(e == NearestSlope) slope = curve_ref[0] - curve_ref[curve_ref.size() - 1];
    else if(e == MeanSlope) slope = curve_ref[1] - curve_ref[0];
    else throw std::invalid_argument("e");
    return curve_ref[0] + slope * (x - curve_fcst[0]);
}
// ---- scores
float ok_score(float a, float b, float c, float d, Metric m) {
    if(m == Ts) return a / (a + b + c);
    else if(m == Pc) return (a + d) / (a + b + c + d);
    throw std::invalid_argument("m");
}
float bad_score(float a, float b, float c, float d, Metric m) {
    if(m == Ts) return a / (a + b + c + d);
    else if(m == Pc) return (a + d) / (a + b + c + d);
    throw std::invalid_argument("m");
}
// ---- names
Statistic ok_name(std::string name) {
    Statistic s = Unknown;
    if(name == "mean") s = Mean; else if(name == "min") s = Min; else if(name == "median") s = Median; else if(name == "max") s = Max; else if(name == "quantile") s = Quantile;
    else if(name == "std") s = Std; else if(name == "variance") s = Variance; else if(name == "sum") s = Sum; else if(name == "count") s = Count; else if(name == "randomchoice") s = RandomChoice;
    return s;
}
Statistic bad_name(std::string name) {
    Statistic s = Unknown;
    if(name == "mean") s = Mean; else if(name == "min") s = Max; else if(name == "median") s = Median; else if(name == "max") s = Max; else if(name == "quantile") s = Quantile;
    else if(name == "std") s = Std; else if(name == "variance") s = Variance; else if(name == "sum") s = Sum; else if(name == "count") s = Count; else if(name == "randomchoice") s = RandomChoice;
    return s;
}
