// Fuzzy inference: P22 Mamdani, P23 Sugeno and Tsukamoto, P24 output range whatever the inputs.
#include "core.hpp"
#include <qlibs.h>
#include <algorithm>
#include <memory>
using namespace sim;
using namespace qlibs;

namespace {
struct Iv { double lo = 0, hi = 0; };
Iv iv(double a, double b) { return {std::min(a, b), std::max(a, b)}; }
double c01(double v) { return v < 0 ? 0 : v > 1 ? 1 : v; }

// current value of a variable as an application function sees it; if it cannot be read, those functions ignore it
template <class B> struct IoT : B {
    template <class Q> static auto get(const B* q, int) -> decltype(float(q->*(&Q::value))) { return q->*(&Q::value); }
    template <class Q> static float get(const B*, long) { return NAN; }
    template <class Q> static auto can(int) -> decltype(float(static_cast<const B*>(nullptr)->*(&Q::value)), true) { return true; }
    template <class Q> static bool can(long) { return false; }
};
struct IoV { using T = IoT<fis::ioBase>; static float v(const fis::ioBase* q) { return T::get<T>(q, 0); } static bool can() { static const bool b = T::can<T>(0); return b; } };
// ------------------------------------------------------------------ membership functions, exact
int nParams(int s) { switch (s) { case fis::trimf: case fis::gbellmf: return 3; case fis::trapmf: case fis::gauss2mf: case fis::dsigmf: case fis::psigmf: case fis::pimf: return 4; case fis::singletonmf: case fis::constantmf: return 1; default: return 2; } }
double sig(double x, double a, double b) { return 1 / (1 + std::exp(-a * (x - b))); }
double sshape(double x, double a, double b) { if (x <= a) return 0; if (x >= b) return 1; double t = (x - a) / (b - a); return x <= (a + b) / 2 ? 2 * t * t : 1 - 2 * (1 - t) * (1 - t); }
double mfv(int s, double x, const float* p) {
    switch (s) {
        case fis::trimf: case fis::trapmf: {
            double a = p[0], b = p[1], c = s == fis::trimf ? p[1] : p[2], d = s == fis::trimf ? p[2] : p[3];
            if (x < a || x > d) return 0; if (x >= b && x <= c) return 1;
            return x < b ? (x - a) / (b - a) : (d - x) / (d - c);
        }
        case fis::gbellmf: return 1 / (1 + std::pow(std::fabs((x - p[2]) / p[0]), 2.0 * p[1]));
        case fis::gaussmf: { double t = (x - p[1]) / p[0]; return std::exp(-0.5 * t * t); }
        case fis::gauss2mf: { double l = (x - p[1]) / p[0], r = (x - p[3]) / p[2]; return (x < p[1] ? std::exp(-0.5 * l * l) : 1) * (x > p[3] ? std::exp(-0.5 * r * r) : 1); }
        case fis::sigmf: return sig(x, p[0], p[1]);
        case fis::dsigmf: return std::fabs(sig(x, p[0], p[1]) - sig(x, p[2], p[3]));
        case fis::psigmf: return sig(x, p[0], p[1]) * sig(x, p[2], p[3]);
        case fis::pimf: return sshape(x, p[0], p[1]) * (1 - sshape(x, p[2], p[3]));
        case fis::smf: return sshape(x, p[0], p[1]);
        case fis::zmf: return 1 - sshape(x, p[0], p[1]);
        case fis::singletonmf: return x == p[0] ? 1 : 0;
        case fis::concavemf: { double i = p[0], e = p[1]; if (i <= e && x < e) return (e - i) / (2 * e - i - x); if (i > e && x > e) return (i - e) / (i + x - 2 * e); return 1; }
        case fis::spikemf: return std::exp(-std::fabs(10 * (x - p[1]) / p[0]));
        case fis::linsmf: if (p[0] == p[1]) return x < p[0] ? 0 : 1; return x <= p[0] ? 0 : x >= p[1] ? 1 : (x - p[0]) / (double(p[1]) - p[0]);
        case fis::linzmf: if (p[0] == p[1]) return x < p[0] ? 1 : 0; return x <= p[0] ? 1 : x >= p[1] ? 0 : (p[1] - x) / (double(p[1]) - p[0]);
        case fis::rectmf: return x >= p[0] && x <= p[1] ? 1 : 0;
        case fis::cosmf: { double c = p[0], w = p[1]; if (x < c - 0.5 * w || x > c + 0.5 * w) return 0; return 0.5 * (1 + std::cos(2 / w * 3.14159265358979323846 * (x - c))); }
        case fis::custommf: { if (!IoV::can()) return 0.5; double q = (x - p[1]) / p[0]; return 1 / (1 + q * q); }
        default: return p[0];                         // constant
    }
}
// interval of the values a single-precision implementation may return
Iv mfi(int s, float x, const float* p, float h) {
    int n = nParams(s); double m = std::fabs(double(x)); bool hit = false;
    for (int i = 0; i < n; ++i) { m = std::max(m, std::fabs(double(p[i]))); if (p[i] == x) hit = true; }
    double dx = 3e-7 * m + 1e-37, tol = s == fis::cosmf ? 6e-4 : 1.5e-5, v = mfv(s, x, p), lo = v, hi = v;
    bool edges = s == fis::trimf || s == fis::trapmf || s == fis::rectmf || s == fis::linsmf || s == fis::linzmf || s == fis::smf || s == fis::zmf;
    bool near = false; for (int i = 0; i < n; ++i) if (p[i] != x && std::fabs(double(p[i]) - double(x)) < 4 * dx) near = true;
    if (s == fis::singletonmf) return {x == p[0] ? h : 0.0, std::fabs(double(x) - p[0]) <= 1e-37 ? h : 0.0};
    if (!(edges && hit && !near)) for (double d : {-dx, dx}) { double w = mfv(s, x + d, p); lo = std::min(lo, w); hi = std::max(hi, w); }
    return {h * c01(lo - tol), h * c01(hi + tol)};
}
// ------------------------------------------------------------------ Tsukamoto consequents: abscissa attaining the strength
double tinv(int s, double w, const float* p) {
    double a = p[0], b = p[1];
    switch (s) {
        case fis::custommf: return IoV::can() ? a + (b - a) * w : a;
        case fis::tlinsmf: case fis::trampmf: return a + (b - a) * w;
        case fis::tlinzmf: return b - (b - a) * w;
        case fis::tconcavemf: return (a - b) / w + 2 * b - a;
        case fis::tsigmf: return b - std::log(1 / w - 1) / a;
        case fis::tsmf: return w <= 0.5 ? a + (b - a) * std::sqrt(w / 2) : b - (b - a) * std::sqrt((1 - w) / 2);
        default: return w <= 0.5 ? b - (b - a) * std::sqrt(w / 2) : a + (b - a) * std::sqrt((1 - w) / 2);
    }
}

// ------------------------------------------------------------------ the configured system
struct Set { int shape = fis::trimf; float h = 1; float* p = nullptr; int io = 0; };
struct Term { int set; bool neg; int conn; };         // conn before the term: 0 none, 1 AND, 2 OR
struct Rule { std::vector<Term> a; std::vector<std::pair<int, bool>> c; };
struct Cfg {
    int type = 0, ni = 1, no = 1; std::vector<Set> in, out; std::vector<Rule> rules; std::vector<float> imin, imax, omin, omax;
    int andOp = 0, orOp = 2, imp = 0, agg = 2, defuzz = 0; float* rw = nullptr;
};
// ------------------------------------------------------------------ the library object, plain or through the template
struct Sys {
    virtual ~Sys() {}
    virtual bool setup() = 0; virtual bool setupInput(int t, float a, float b) = 0; virtual bool setupOutput(int t, float a, float b) = 0;
    virtual bool inMF(int io, int m, int s, const float* p, float h) = 0; virtual bool outMF(int io, int m, int s, const float* p, float h) = 0;
    virtual bool param(int p, int v) = 0; virtual bool defuzz(int m) = 0; virtual bool weights(float* w) = 0;
    virtual void input(int i, float v, int how) = 0; virtual bool fuzzify() = 0; virtual bool infer() = 0; virtual bool deFuzzify() = 0; virtual float output(int o, int how) = 0;
    float* strength = nullptr; float *xag[4] = {}, *yag[4] = {};
};
// the application's own functions: membership of one variable; Sugeno consequent over all inputs; Tsukamoto consequent over the strength
real_t customFn(const fis::ioBase* const in, const real_t* p, const size_t) { if (!IoV::can()) return 0.5f; float q = (IoV::v(in) - p[1]) / p[0]; return 1 / (1 + q * q); }
real_t customSug(const fis::ioBase* const in, const real_t* p, const size_t n) { return !IoV::can() ? p[0] : p[0] + p[1] * IoV::v(in) + p[2] * IoV::v(in + (n - 1)); }
real_t customTsu(const fis::ioBase* const in, const real_t* p, const size_t) { return !IoV::can() ? p[0] : p[0] + (p[1] - p[0]) * IoV::v(in); }
fis::mfFunction customOf(int type, bool out) { return !out || type == 0 ? &customFn : type == 1 ? &customSug : &customTsu; }
template <class F> struct Common : Sys {
    F* f = nullptr; int type = 0;
    bool setupInput(int t, float a, float b) override { return f->setupInput(fis::tag(t), a, b); }
    bool setupOutput(int t, float a, float b) override { return f->setupOutput(fis::tag(t), a, b); }
    bool inMF(int io, int m, int s, const float* p, float h) override { if (s == fis::custommf) return h == 1 ? f->setupInputMF(fis::tag(io), fis::tag(m), customOf(type, false), p) : f->setupInputMF(fis::tag(io), fis::tag(m), customOf(type, false), p, h); return h == 1 ? f->setupInputMF(fis::tag(io), fis::tag(m), fis::shapeMF(s), p) : f->setupInputMF(fis::tag(io), fis::tag(m), fis::shapeMF(s), p, h); }
    bool outMF(int io, int m, int s, const float* p, float h) override { if (s == fis::custommf) return h == 1 ? f->setupOutputMF(fis::tag(io), fis::tag(m), customOf(type, true), p) : f->setupOutputMF(fis::tag(io), fis::tag(m), customOf(type, true), p, h); return h == 1 ? f->setupOutputMF(fis::tag(io), fis::tag(m), fis::shapeMF(s), p) : f->setupOutputMF(fis::tag(io), fis::tag(m), fis::shapeMF(s), p, h); }
    bool param(int p, int v) override { return f->setParameter(fis::parameter(p), fis::paramValue(v)); }
    bool defuzz(int m) override { return f->setDeFuzzMethod(fis::deFuzzMethod(m)); }
    bool weights(float* w) override { return f->setRuleWeights(w); }
    void input(int i, float v, int how) override {
        if (how == 1) *f << fis::tag(i) << v;
        else if (how == 2 && v == std::floor(v) && std::fabs(v) < 1e6f) *f << fis::tag(i) << int(v);
        else if (!f->setInput(fis::tag(i), v)) fail("fis.config", "setInput failed");
    }
    bool fuzzify() override { return f->fuzzify(); } bool infer() override { return f->inference(); } bool deFuzzify() override { return f->deFuzzify(); }
    float output(int o, int how) override { float v = 0; if (how) return (*f)[fis::tag(o)]; if (!f->getOutput(fis::tag(o), v)) fail("fis.config", "getOutput failed"); return v; }
};
std::vector<fis::rules> encode(const Cfg& c) {
    std::vector<fis::rules> r; r.push_back(fis::Q_FIS_RULES_BEGIN);
    for (auto& q : c.rules) {
        for (size_t k = 0; k < q.a.size(); ++k) {
            const Term& t = q.a[k]; r.push_back(fis::rules(c.in[size_t(t.set)].io)); r.push_back(fis::rules(t.neg ? -(t.set + 1) : t.set + 1));
            r.push_back(k + 1 < q.a.size() ? (q.a[k + 1].conn == 2 ? fis::Q_FIS_OR : fis::Q_FIS_AND) : fis::Q_FIS_THEN);
        }
        for (size_t k = 0; k < q.c.size(); ++k) { if (k) r.push_back(fis::Q_FIS_AND); r.push_back(fis::rules(c.out[size_t(q.c[k].first)].io)); r.push_back(fis::rules(q.c[k].second ? -(q.c[k].first + 1) : q.c[k].first + 1)); }
    }
    r.push_back(fis::Q_FIS_RULES_END); return r;
}
struct Plain : Common<fis::instance> {
    const Cfg& c; fis::input* in; fis::output* out; fis::mf *mi, *mo; fis::rules* r;
    Plain(const Cfg& c_, fis::instance* reuse, bool store) : c(c_) {
        type = c.type; f = reuse ? reuse : make<fis::instance>();
        in = arr<fis::input>(size_t(c.ni)); for (int i = 0; i < c.ni; ++i) new (in + i) fis::input;
        out = arr<fis::output>(size_t(c.no)); for (int i = 0; i < c.no; ++i) new (out + i) fis::output;
        mi = arr<fis::mf>(c.in.size()); for (size_t i = 0; i < c.in.size(); ++i) new (mi + i) fis::mf;
        mo = arr<fis::mf>(c.out.size()); for (size_t i = 0; i < c.out.size(); ++i) new (mo + i) fis::mf;
        auto e = encode(c); r = arr<fis::rules>(e.size()); memcpy(r, e.data(), e.size() * sizeof(fis::rules)); strength = arr<float>(c.rules.size());
        if (store) for (int i = 0; i < c.no; ++i) { xag[i] = arr<float>(100); yag[i] = arr<float>(100); }
    }
    bool setup() override {
        if (!f->setup(fis::type(c.type), in, size_t(c.ni), out, size_t(c.no), mi, c.in.size(), mo, c.out.size(), r, c.rules.size(), strength)) return false;
        for (int i = 0; i < c.no; ++i) if (xag[i] && !out[i].storeAggregatedRegion(xag[i], yag[i], f->getNumberOfPoints())) return false;
        return true;
    }
};
template <fis::type T, size_t NI, size_t NO, size_t NR> struct Tmpl : Common<fis::system<T, NI, NO, 3 * NI, 3 * NO, NR>> {
    using F = fis::system<T, NI, NO, 3 * NI, 3 * NO, NR>;
    Tmpl(const Cfg& c) { this->type = c.type; auto e = encode(c); fis::rules* r = arr<fis::rules>(e.size()); memcpy(r, e.data(), e.size() * sizeof(fis::rules)); this->f = make<F>(static_cast<const fis::rules*>(r)); }
    bool setup() override { return this->f->setup(); }
};
template <fis::type T, size_t NI, size_t NO> Sys* tm2(const Cfg& c) { if (c.rules.size() == 2) return new Tmpl<T, NI, NO, 2>(c); if (c.rules.size() == 5) return new Tmpl<T, NI, NO, 5>(c); return nullptr; }
template <fis::type T> Sys* tm1(const Cfg& c) {
    if (c.no == 1) switch (c.ni) { case 1: return tm2<T, 1, 1>(c); case 2: return tm2<T, 2, 1>(c); case 3: return tm2<T, 3, 1>(c); }
    if (c.no == 2) switch (c.ni) { case 1: return tm2<T, 1, 2>(c); case 2: return tm2<T, 2, 2>(c); case 3: return tm2<T, 3, 2>(c); }
    return nullptr;
}
Sys* viaTemplate(const Cfg& c) { if (c.in.size() != size_t(3 * c.ni) || c.out.size() != size_t(3 * c.no)) return nullptr; switch (c.type) { case 0: return tm1<fis::Mamdani>(c); case 1: return tm1<fis::Sugeno>(c); default: return tm1<fis::Tsukamoto>(c); } }

Iv op(int m, Iv a, Iv b) {
    auto f = [&](double x, double y) { switch (m) { case 0: return c01(std::min(x, y)); case 1: return c01(x * y); case 2: return c01(std::max(x, y)); case 3: return c01(x + y - x * y); default: return c01(x + y); } };
    return {f(a.lo, b.lo), f(a.hi, b.hi)};
}
// ------------------------------------------------------------------ run
struct World {
    Cfg c; std::unique_ptr<Sys> A, B, C; std::vector<Rule> pend; bool up = false, p24 = false; std::vector<float> x; uint64_t evals = 0; float* rwbuf = nullptr; fis::instance* keep = nullptr; bool seenBad = false;
    template <class F> void both(const char* what, F fn) { lib(); if (!fn(*A)) fail("fis.config", "%s rejected", what); if (B) { lib(); if (!fn(*B)) fail("fis.config", "%s rejected by the second system", what); } }
    void setIn(int k) { Set& s = c.in[size_t(k)]; both("setupInputMF", [&](Sys& y) { return y.inMF(s.io, k, s.shape, s.p, s.h); }); }
    void setOut(int k) { Set& s = c.out[size_t(k)]; both("setupOutputMF", [&](Sys& y) { return y.outMF(s.io, k, s.shape, s.p, s.h); }); }
    // parameters from numbers in 0..1 placed on the range of the variable
    float* params(int shape, double lo, double hi, const Step& st, size_t from) {
        double W = hi - lo; auto u = [&](size_t i) { return double(st.r(from + i, 0, 1, 0.5)); }; bool rnd = u(6) > 0.75 && W >= 4 && W < 1e5;      // round parameters
        auto sn = [&](double v) { return float(rnd && std::fabs(v) >= 0.75 ? std::round(v) : v); }; auto at = [&](size_t i) { double v = lo + (u(i) * 1.4 - 0.2) * W; return float(rnd ? std::round(v) : v); };
        float* p = arr<float>(4); std::vector<float> v;
        switch (shape) {
            case fis::trimf: case fis::trapmf: {
                int n = shape == fis::trimf ? 3 : 4; for (int i = 0; i < n; ++i) v.push_back(at(size_t(i))); std::sort(v.begin(), v.end());
                if (v.back() - v.front() < 0.05 * W) { v.front() = float(v.front() - 0.1 * W); v.back() = float(v.back() + 0.1 * W); }
                if (u(4) < 0.2) v[1] = v[0]; else if (u(4) < 0.4) v[size_t(n - 2)] = v[size_t(n - 1)];
                if (u(5) < 0.15) { float d = float(lo) - v[0]; (void)d; v[0] = float(lo); if (v[1] < v[0]) v[1] = v[0]; if (n == 4 && v[2] < v[1]) v[2] = v[1]; if (v.back() < v[size_t(n - 2)]) v.back() = v[size_t(n - 2)]; if (v.back() - v.front() < 0.05 * W) v.back() = float(v.front() + 0.3 * W); }
                else if (u(5) > 0.85) { v.back() = float(hi); for (int i = n - 2; i >= 0; --i) if (v[size_t(i)] > v[size_t(i + 1)]) v[size_t(i)] = v[size_t(i + 1)]; if (v.back() - v.front() < 0.05 * W) v.front() = float(hi - 0.3 * W); }
                std::copy(v.begin(), v.end(), p); break;
            }
            case fis::gbellmf: p[0] = sn((0.05 + u(0)) * W); p[1] = sn(0.5 + 4 * u(1)); p[2] = at(2); break;
            case fis::gaussmf: p[0] = sn((0.03 + u(0)) * W); p[1] = at(1); break;
            case fis::gauss2mf: p[0] = sn((0.03 + u(0)) * W); p[1] = std::min(at(1), at(3)); p[2] = sn((0.03 + u(2)) * W); p[3] = std::max(at(1), at(3)); break;
            case fis::sigmf: p[0] = sn((u(0) * 60 - 30) / W); p[1] = at(1); break;
            case fis::dsigmf: case fis::psigmf: p[0] = sn((u(0) * 60 - 30) / W); p[1] = at(1); p[2] = sn((u(2) * 60 - 30) / W); p[3] = at(3); break;
            case fis::pimf: { for (size_t i = 0; i < 4; ++i) v.push_back(at(i)); std::sort(v.begin(), v.end()); for (size_t i = 1; i < 4; ++i) if (v[i] - v[i - 1] < 0.02 * W) v[i] = float(v[i - 1] + 0.05 * W); if (u(4) < 0.2) std::swap(v[1], v[2]); /* both slopes overlap */ std::copy(v.begin(), v.end(), p); break; }
            case fis::smf: case fis::zmf: case fis::linsmf: case fis::linzmf: case fis::rectmf: p[0] = std::min(at(0), at(1)); p[1] = std::max(at(0), at(1)); if (p[1] - p[0] < 0.03 * W) p[1] = float(p[0] + 0.1 * W); if ((shape == fis::linsmf || shape == fis::linzmf) && u(4) < 0.25) p[1] = p[0]; break;
            case fis::singletonmf: p[0] = u(1) < 0.3 ? float(lo) : u(1) > 0.7 ? float(hi) : at(0); break;
            case fis::concavemf: p[0] = at(0); p[1] = at(1); if (std::fabs(p[0] - p[1]) < 0.05 * W) p[1] = float(p[0] + 0.2 * W); break;
            case fis::spikemf: p[0] = sn((0.1 + u(0)) * W); p[1] = at(1); break;
            case fis::cosmf: p[0] = at(0); p[1] = sn((0.1 + u(1)) * W); break;
            case fis::tconcavemf: case fis::tlinsmf: case fis::tlinzmf: case fis::tsmf: case fis::tzmf: case fis::trampmf: p[0] = at(0); p[1] = at(1); if (std::fabs(p[0] - p[1]) < 0.05 * W) p[1] = float(p[0] + 0.2 * W); if (shape != fis::tconcavemf && shape != fis::trampmf && p[0] > p[1]) std::swap(p[0], p[1]); break;
            case fis::tsigmf: p[0] = sn((u(0) * 60 - 30) / W); if (std::fabs(p[0]) < 1 / W) p[0] = float(2 / W); p[1] = at(1); break;
            case fis::custommf: p[0] = sn((0.05 + u(0)) * W); p[1] = at(1); break;
            default: p[0] = float(u(0)); break;
        }
        return p;
    }
    int inShape(long k) { k %= fis::constantmf; return int(k); }
    void setInSet(int k, const Step& st, size_t from) { Set& s = c.in[size_t(k)]; s.shape = inShape(st.n(from, 0, 1000)); s.h = st.n(from + 1, 0, 9) < 7 ? 1.0f : st.r(from + 2, 0, 1, 1); s.p = params(s.shape, c.imin[size_t(s.io)], c.imax[size_t(s.io)], st, from + 3); setIn(k); }
    void setOutSet(int k, const Step& st, size_t from) {
        Set& s = c.out[size_t(k)]; double lo = c.omin[size_t(s.io)], hi = c.omax[size_t(s.io)]; s.h = 1;
        if (c.type == 0) { s.shape = inShape(st.n(from, 0, 1000)); s.h = st.n(from + 1, 0, 9) < 7 ? 1.0f : st.r(from + 2, 0, 1, 1); s.p = params(s.shape, lo, hi, st, from + 3); }
        else if (c.type == 1) {
            long k3 = st.n(from, 0, 1000) % 5; s.shape = k3 == 4 ? fis::custommf : k3 % 2 ? fis::linearmf : fis::constantmf; size_t n = s.shape == fis::linearmf ? size_t(c.ni) + 1 : 1; s.p = arr<float>(s.shape == fis::custommf ? 3 : n);
            for (size_t i = 0; i + 1 < n; ++i) s.p[i] = float((st.r(from + 3 + i, 0, 1, 0.5) - 0.5) * 2 * (hi - lo) / (double(c.imax[i]) - c.imin[i]));
            s.p[n - 1] = float(lo + (st.r(from + 2 + n, 0, 1, 0.5) * 1.4 - 0.2) * (hi - lo));
            if (s.shape == fis::custommf) { s.p[1] = float((st.r(from + 4, 0, 1, 0.5) - 0.5) * (hi - lo) / (double(c.imax[0]) - c.imin[0])); s.p[2] = float((st.r(from + 5, 0, 1, 0.5) - 0.5) * (hi - lo) / (double(c.imax[size_t(c.ni - 1)]) - c.imin[size_t(c.ni - 1)])); }
        } else { long k3 = st.n(from, 0, 1000) % 15; s.shape = k3 == 14 ? int(fis::custommf) : fis::tlinsmf + int(k3 % 7); s.p = params(s.shape == fis::custommf ? int(fis::trampmf) : s.shape, lo, hi, st, from + 3); }
        setOut(k);
    }
    void build(const Step& s) {
        Cfg n; n.type = int(s.n(0, 0, 2)); n.ni = int(s.n(1, 1, 6, 1)); n.no = int(s.n(2, 1, 3, 1));
        for (int i = 0; i < n.ni; ++i) { n.imin.push_back(0); n.imax.push_back(10); }
        // sets of a variable need not be neighbours: seeded assignment, every variable has one
        Rng rs(uint64_t(s.n(6, 0, 1L << 40))); bool mixed = s.n(6, 0, 1L << 40) != 0; size_t mi = mixed ? size_t(std::max(s.n(4, 1, 123, 3 * n.ni), long(n.ni))) : size_t(3 * n.ni), mo = mixed ? size_t(std::max(s.n(5, 1, 123, 3 * n.no), long(n.no))) : size_t(3 * n.no);
        auto deal = [&](std::vector<Set>& v, size_t m, int ni) { for (size_t k = 0; k < m; ++k) { Set t; t.io = !mixed ? int(k) / 3 : k < size_t(ni) ? int(k) : int(rs.below(uint32_t(ni))); v.push_back(t); } if (mixed) for (size_t k = m; k > 1; --k) std::swap(v[k - 1], v[rs.below(uint32_t(k))]); };
        deal(n.in, mi, n.ni); deal(n.out, mo, n.no);
        for (int i = 0; i < n.no; ++i) { n.omin.push_back(-5); n.omax.push_back(20); }
        for (auto& r : pend) {
            Rule q = r; if (q.a.empty()) q.a.push_back({0, false, 0}); for (auto& t : q.a) t.set = t.set % int(n.in.size());
            std::vector<std::pair<int, bool>> cc; std::vector<bool> used(size_t(n.no), false);
            if (q.c.empty()) q.c.push_back({0, false});
            for (auto& t : q.c) { int o = t.first % int(n.out.size()); if (n.no == 1 && !cc.empty()) break; cc.push_back({o, n.type == 0 && t.second}); }
            q.c = cc; n.rules.push_back(q);
        }
        if (n.rules.empty()) { Rule q; q.a.push_back({0, false, 0}); q.c.push_back({0, false}); n.rules.push_back(q); }
        if (n.rules.size() > 400) n.rules.resize(400);
        pend.clear(); c = n; c.defuzz = c.type == 0 ? fis::centroid : fis::wtaver;
        bool reuse = s.n(3, 0, 1) && keep; Plain* a = new Plain(c, reuse ? keep : nullptr, true); A.reset(a); keep = a->f;
        if (reuse) fault(F_RECONF);
        Sys* t = viaTemplate(c); B.reset(t ? t : new Plain(c, nullptr, false));
        both("setup", [](Sys& y) { return y.setup(); });
        for (int i = 0; i < c.ni; ++i) both("setupInput", [&](Sys& y) { return y.setupInput(i, c.imin[size_t(i)], c.imax[size_t(i)]); });
        for (int i = 0; i < c.no; ++i) both("setupOutput", [&](Sys& y) { return y.setupOutput(i, c.omin[size_t(i)], c.omax[size_t(i)]); });
        Step d{"", 0, {1, 0, 1, 0.2, 0.5, 0.8, 0.6, 0.5, 0.5}};
        for (size_t k = 0; k < c.in.size(); ++k) { d.a[3] = 0.15 + 0.25 * double(k % 3); d.a[4] = d.a[3] + 0.2; d.a[5] = d.a[3] + 0.4; setInSet(int(k), d, 0); }
        for (size_t k = 0; k < c.out.size(); ++k) { d.a[3] = 0.15 + 0.25 * double(k % 3); d.a[4] = d.a[3] + 0.2; d.a[5] = d.a[3] + 0.4; setOutSet(int(k), d, 0); }
        if (keep && reuse && c.rw == nullptr) { /* weights of the previous rule base do not apply: install neutral ones */ rwbuf = arr<float>(c.rules.size()); for (size_t i = 0; i < c.rules.size(); ++i) rwbuf[i] = 1; both("setRuleWeights", [&](Sys& y) { return y.weights(rwbuf); }); c.rw = rwbuf; }
        x.assign(size_t(c.ni), 0); up = true; seenBad = false;
        for (int i = 0; i < c.ni; ++i) both("setInput", [&](Sys& y) { y.input(i, 0, 0); return true; });
    }
    void eval(const Step& s) {
        ++evals; lib(6); simtime(0.01);
        for (int k = 0; k < 2; ++k) { Sys& y = k ? *B : *A; if (!y.fuzzify() || !y.infer() || !y.deFuzzify()) fail("fis.eval", "evaluation of a well-formed system failed"); }
        std::vector<float> xb = x; for (int i = 0; i < c.ni; ++i) { float& v = xb[size_t(i)]; if (!(v >= c.imin[size_t(i)])) v = c.imin[size_t(i)]; if (v > c.imax[size_t(i)]) v = c.imax[size_t(i)]; x[size_t(i)] = v; }
        // inputs are limited to their ranges in place: the limited value stays the input until the next assignment
        std::vector<Iv> m(c.in.size()); for (size_t k = 0; k < c.in.size(); ++k) m[k] = mfi(c.in[k].shape, xb[size_t(c.in[k].io)], c.in[k].p, c.in[k].h);
        std::vector<Iv> w(c.rules.size());
        for (size_t r = 0; r < c.rules.size(); ++r) {
            Iv st; bool first = true;
            for (auto& t : c.rules[r].a) { Iv v = {c01(m[size_t(t.set)].lo), c01(m[size_t(t.set)].hi)}; if (t.neg) v = {1 - v.hi, 1 - v.lo}; st = first ? v : op(t.conn == 2 ? c.orOp : c.andOp, st, v); first = false; }
            if (c.rw) { double q = c01(double(c.rw[r])); st.lo *= q; st.hi *= q; }
            w[r] = st; float g = A->strength[r]; observe(g); sh->compares++;
            if (!(g >= 0 && g <= 1)) fail("fis.strength", "strength of rule %zu is %.9g", r, double(g));
            if (!(g >= st.lo - 2e-6 && g <= st.hi + 2e-6)) fail("fis.strength", "strength of rule %zu is %.9g, its antecedent gives %.9g..%.9g", r, double(g), st.lo, st.hi);
        }
        for (int o = 0; o < c.no; ++o) {
            float y = A->output(o, int(s.n(0, 0, 1))), z = B->output(o, int(s.n(1, 0, 1))); observe(y); double lo = c.omin[size_t(o)], hi = c.omax[size_t(o)], W = hi - lo;
            if (!(y >= lo && y <= hi)) fail("fis.range", "output %d is %.9g outside [%.9g, %.9g]", o, double(y), lo, hi);
            if (memcmp(&y, &z, 4) != 0) fail("fis.twin", "two identically configured systems give %.9g and %.9g (output %d)", double(y), double(z), o);
            cover(2200 + uint64_t(c.type), uint64_t(c.defuzz) * 100 + uint64_t(c.imp * 25 + c.agg * 5 + c.andOp + c.orOp * 50), uint64_t((y - lo) / W * 12), uint64_t(c.rules.size()));
            if (c.type == 0) mamdani(o, y, w, lo, hi); else crisp(o, y, w, lo, hi, xb);
        }
    }
    void mamdani(int o, float out, const std::vector<Iv>& w, double lo, double hi) {
        const int N = 100; double W = hi - lo, sy = 0, sxy = 0, slo = 0; const float *X = A->xag[o], *Y = A->yag[o];
        for (int k = 0; k < N; ++k) {
            double xe = lo + (k + 0.5) * W / N;
            if (!(std::fabs(X[k] - xe) <= 2e-5 * W + 3e-7 * std::max(std::fabs(lo), std::fabs(hi)))) fail("mamdani.region", "abscissa %d of output %d is %.9g instead of %.9g", k, o, double(X[k]), xe);
            Iv y;
            for (size_t r = 0; r < w.size(); ++r) for (auto& t : c.rules[r].c) if (c.out[size_t(t.first)].io == o) {
                const Set& q = c.out[size_t(t.first)]; Iv v = mfi(q.shape, X[k], q.p, q.h); if (t.second) v = {1 - v.hi, 1 - v.lo};
                y = op(c.agg, y, op(c.imp, w[r], v));
            }
            sh->compares++; if (y.hi - y.lo < 2e-3) sh->tight++;
            if (!(Y[k] >= y.lo - 3e-6 && Y[k] <= y.hi + 3e-6)) fail("mamdani.region", "aggregated membership of output %d at %.9g is %.9g, the rules give %.9g..%.9g", o, double(X[k]), double(Y[k]), y.lo, y.hi);
            sy += Y[k]; sxy += double(X[k]) * Y[k]; slo += y.lo;
        }
        double tx = 3e-7 * std::max(std::fabs(lo), std::fabs(hi)) + 1e-6 * W; float best = Y[0]; int i0 = 0; for (int k = 1; k < N; ++k) if (Y[k] > best) { best = Y[k]; i0 = k; }
        auto want = [&](const char* nm, double e, double tol) { if (!(std::fabs(double(out) - std::min(hi, std::max(lo, e))) <= tol)) fail("mamdani.defuzz", "%s of output %d is %.9g instead of %.9g", nm, o, double(out), e); };
        switch (c.defuzz) {
            case fis::centroid: if (sy > 1e-6) want("centroid", sxy / sy, 2e-5 * W + 2e-5 * std::max(std::fabs(lo), std::fabs(hi))); break;
            case fis::som: want("smallest of maximum", X[i0], tx); break;
            case fis::lom: { int l = i0; for (int k = i0; k < N; ++k) if (Y[k] == best) l = k; want("largest of maximum", X[l], tx); break; }
            case fis::mom: { int l = i0, l2; while (l + 1 < N && Y[l + 1] == best) ++l; l2 = l; while (l2 + 1 < N && Y[l2 + 1] >= best - 3e-7f) ++l2; if (l2 == l) want("middle of maximum", 0.5 * (double(X[i0]) + X[l]), tx); else if (!(out >= 0.5 * (double(X[i0]) + X[l]) - tx && out <= 0.5 * (double(X[i0]) + X[l2]) + tx)) want("middle of maximum", 0.5 * (double(X[i0]) + X[l]), tx); break; }
            case fis::bisector: {
                if (sy <= 1e-6) break;
                int k = int(std::floor((double(out) - lo) / W * N)); k = std::max(0, std::min(N - 1, k)); for (int d = -1; d <= 1; ++d) if (k + d >= 0 && k + d < N && std::fabs(X[k + d] - double(out)) <= tx) { k += d; break; }
                if (std::fabs(X[k] - double(out)) > tx) fail("mamdani.defuzz", "bisector %.9g of output %d is not a point of the region", double(out), o);
                double a = 0; for (int i = 0; i < k; ++i) a += Y[i]; double b = a + Y[k];
                if (!(b >= 0.5 * sy * (1 - 2e-5) - 1e-6 && a <= 0.5 * sy * (1 + 2e-5) + 1e-6)) fail("mamdani.defuzz", "bisector of output %d is %.9g: %.9g of %.9g lie to its left", o, double(out), a, sy);
                break;
            }
        }
    }
    void crisp(int o, float out, const std::vector<Iv>& w, double lo, double hi, const std::vector<float>& xb) {
        // strengths as reported are the weights; they were checked against the antecedents above
        double swz = 0, sw = 0, err = 0, mag = 0; bool ok = true; struct Z { double w, z, dz; }; std::vector<Z> zs; double W = hi - lo;
        for (size_t r = 0; r < w.size(); ++r) for (auto& t : c.rules[r].c) {
            const Set& q = c.out[size_t(t.first)]; if (q.io != o) continue; double g = A->strength[r]; if (!(g > 0)) continue;
            double z, dz;
            if (c.type == 1) {
                if (q.shape == fis::custommf && !IoV::can()) { z = q.p[0]; dz = 3e-7 * std::fabs(z); }
                else if (q.shape == fis::custommf) { double u1 = double(q.p[1]) * xb[0], u2 = double(q.p[2]) * xb.back(); z = q.p[0] + u1 + u2; dz = 6e-7 * (std::fabs(double(q.p[0])) + std::fabs(u1) + std::fabs(u2)); }
                else if (q.shape == fis::constantmf) { z = q.p[0]; dz = 3e-7 * std::fabs(z); }
                else { z = 0; dz = 0; for (int i = 0; i < c.ni; ++i) { double v = double(xb[size_t(i)]) * q.p[i]; z += v; dz += 6e-7 * std::fabs(v); } z += q.p[c.ni]; dz += 6e-7 * std::fabs(double(q.p[c.ni])); }
            } else {
                z = tinv(q.shape, g, q.p); dz = 1e-5 * (std::fabs(double(q.p[0])) + std::fabs(double(q.p[1])) + std::fabs(z)) * (q.shape == fis::tsigmf ? 0 : 1);
                if (q.shape == fis::tsigmf && g == 1.0 && q.p[0] != 0) { z = q.p[0] > 0 ? hi : lo; dz = 1e-6 * std::fabs(z); }   // full strength: the end of the range
                else if (q.shape == fis::tsigmf) { if (g > 0.9999 || g < 1e-5) { ok = false; continue; } dz = 1e-5 * (std::fabs(double(q.p[1])) + std::fabs(z)) + (3e-6 + 2e-7 / (1 - g)) / std::fabs(double(q.p[0])); }
                if (q.shape == fis::tsmf || q.shape == fis::tzmf) dz += 4e-4 * W * (std::min(g, 1 - g) < 1e-4 ? 1 : 0.02);
                if (std::fabs(z) > 1e12 * W) ok = false;
            }
            zs.push_back({g, z, dz}); sw += g; swz += g * z; err += g * dz; mag += g * std::fabs(z);
        }
        sh->compares++;
        if (!ok) { sh->skipped++; return; }
        double e, tol;
        if (c.defuzz == fis::wtsum) { e = swz; tol = err + 1e-6 * mag; }
        else { if (!(sw > 1e-30)) return; e = swz / sw; tol = (err + 2e-6 * mag) / sw; }
        e = std::min(hi, std::max(lo, e)); tol += 1e-6 * std::max(std::fabs(lo), std::fabs(hi)) + 1e-37; if (tol < 2e-3 * W) sh->tight++;
        if (!(std::fabs(double(out) - e) <= tol)) fail(c.type == 1 ? "sugeno.output" : "tsukamoto.output", "output %d is %.9g instead of %.9g (tolerance %.3g)", o, double(out), e, tol);
    }
    void step(const Step& s) {
        switch (s.h) {
            case H("rule"): { Rule q; size_t na = size_t(s.n(0, 1, 40, 1)), nc = size_t(s.n(1, 1, 3, 1)); for (size_t i = 0; i < na; ++i) q.a.push_back({int(s.n(2 + 3 * i, 0, 1000)), s.n(3 + 3 * i, 0, 1) != 0, 1 + int(s.n(4 + 3 * i, 0, 1))}); for (size_t i = 0; i < nc; ++i) q.c.push_back({int(s.n(2 + 3 * na + 2 * i, 0, 1000)), s.n(3 + 3 * na + 2 * i, 0, 1) != 0}); pend.push_back(q); return; }
            case H("sys"): build(s); return;
            default: break;
        }
        if (!up) return;
        switch (s.h) {
            case H("in"): { int i = int(s.n(0, 0, 5)) % c.ni; double a = s.r(1, -1e12, 1e12, 0), wd = std::max(1e-5 * std::fabs(a), double(s.r(2, 1e-2, 1e12, 10))); c.imin[size_t(i)] = float(a); c.imax[size_t(i)] = float(a + wd); both("setupInput", [&](Sys& y) { return y.setupInput(i, c.imin[size_t(i)], c.imax[size_t(i)]); }); for (size_t k = 0; k < c.in.size(); ++k) if (c.in[k].io == i) { Step d = s; d.a.resize(3); d.a.push_back(double(s.n(3 + k % 3, 0, 1000))); for (double v : {0., 1., 0.3, 0.5, 0.7, 0.9, 0.5, 0.5}) d.a.push_back(v); setInSet(int(k), d, 3); } fault(F_RECONF); return; }
            case H("out"): { int i = int(s.n(0, 0, 2)) % c.no; double a = s.r(1, -1e12, 1e12, 0), wd = std::max(1e-5 * std::fabs(a), double(s.r(2, 1e-2, 1e12, 10))); c.omin[size_t(i)] = float(a); c.omax[size_t(i)] = float(a + wd); both("setupOutput", [&](Sys& y) { return y.setupOutput(i, c.omin[size_t(i)], c.omax[size_t(i)]); }); for (size_t k = 0; k < c.out.size(); ++k) if (c.out[k].io == i) { Step d = s; d.a.resize(3); d.a.push_back(double(s.n(3 + k % 3, 0, 1000))); for (double v : {0., 1., 0.3, 0.5, 0.7, 0.9, 0.5, 0.5}) d.a.push_back(v); setOutSet(int(k), d, 3); } fault(F_RECONF); return; }
            case H("imf"): setInSet(int(s.n(0, 0, 1000)) % int(c.in.size()), s, 1); fault(F_RECONF); return;
            case H("omf"): setOutSet(int(s.n(0, 0, 1000)) % int(c.out.size()), s, 1); fault(F_RECONF); return;
            case H("par"): {
                int p = int(s.n(0, 0, 3)), v = int(s.n(1, 0, 4)); bool ok = false;
                switch (p) { case fis::FIS_Implication: ok = v <= 1; if (ok) c.imp = v; break; case fis::FIS_Aggregation: ok = v >= 2; if (ok) c.agg = v; break; case fis::FIS_AND: ok = v <= 1; if (ok) c.andOp = v; break; default: ok = v == 2 || v == 3; if (ok) c.orOp = v; break; }
                lib(2); fault(ok ? F_RECONF : F_BADCFG); if (A->param(p, v) != ok || B->param(p, v) != ok) fail("fis.config", "operator %d for parameter %d %s", v, p, ok ? "rejected" : "accepted"); return;
            }
            case H("dfz"): { int m = int(s.n(0, 0, 7)); bool ok = c.type == 0 ? m <= fis::som : c.type == 1 ? (m == fis::wtaver || m == fis::wtsum) : m == fis::wtaver; lib(2); fault(ok ? F_RECONF : F_BADCFG); if (A->defuzz(m) != ok || B->defuzz(m) != ok) fail("fis.config", "de-fuzzification %d %s", m, ok ? "rejected" : "accepted"); if (ok) c.defuzz = m; return; }
            case H("rw"): { rwbuf = arr<float>(c.rules.size()); for (size_t i = 0; i < c.rules.size(); ++i) rwbuf[i] = s.r(i, -0.5, 1.5, 1); c.rw = rwbuf; both("setRuleWeights", [&](Sys& y) { return y.weights(rwbuf); }); fault(F_RECONF); return; }
            case H("x"): {
                for (int i = 0; i < c.ni; ++i) { float v = float(c.imin[size_t(i)] + (s.r(2 + size_t(i), 0, 1, 0.5) * 1.3 - 0.15) * (double(c.imax[size_t(i)]) - c.imin[size_t(i)])); if (s.n(1, 0, 2) == 2 && std::fabs(v) < 1e5f && c.imax[size_t(i)] - c.imin[size_t(i)] >= 4) v = std::round(v); setX(i, v, s); }
                eval(s); return;
            }
            case H("edge"): { // an input exactly on a parameter of one of its sets, or on its range
                int i = int(s.n(2, 0, 5)) % c.ni; std::vector<size_t> of; for (size_t k = 0; k < c.in.size(); ++k) if (c.in[k].io == i) of.push_back(k); Set& q = c.in[of[size_t(s.n(3, 0, 2)) % of.size()]]; float v = q.p[size_t(s.n(4, 0, 3)) % size_t(nParams(q.shape))]; if (s.n(5, 0, 9) == 0) v = c.imin[size_t(i)]; if (s.n(5, 0, 9) == 1) v = c.imax[size_t(i)]; setX(i, v, s); eval(s); return;
            }
            case H("bad"): { static const float V[] = {NAN, INFINITY, -INFINITY, 3.4e38f, -3.4e38f, 1e-42f, -1e-42f, 1e30f}; int i = int(s.n(2, 0, 5)) % c.ni; int k = int(s.n(3, 0, 7)); fault(k == 0 ? F_NAN : k < 3 ? F_INF : k < 5 || k == 7 ? F_HUGE : F_DENORM); setX(i, V[k], s); if (s.n(4, 0, 2)) eval(s); return; }
            case H("again"): fault(F_DUP); eval(s); return;
            default: return;
        }
    }
    void setX(int i, float v, const Step& s) { A->input(i, v, int(s.n(0, 0, 2))); B->input(i, v, int(s.n(1, 0, 2))); lib(2); x[size_t(i)] = v; }
};
void exec(const Plan& p) { World w; for (auto& s : p.s) w.step(s); }
void genCfg(Rng& r, Plan& p, int type, bool big) {
    bool mixed = r.chance(0.3), large = mixed && r.chance(0.2), huge = large && r.chance(0.08); int mi = r.range(1, large ? 24 : 9), mo = r.range(1, large ? 16 : 7); if (huge) { mi = r.range(100, 123); mo = r.range(10, 123); }
    int ni = r.range(1, 4), no = r.chance(0.6) ? 1 : r.range(1, 3), nr = r.chance(0.5) ? (r.chance(0.5) ? 2 : 5) : r.range(1, 8); if (r.chance(0.5)) ni = r.range(1, 2); if (large) { ni = r.range(1, 6); nr = huge ? r.range(240, 330) : r.range(10, r.chance(0.3) ? 80 : 25); }
    for (int k = 0; k < nr; ++k) { int na = huge || r.chance(0.4) ? 1 : r.chance(0.06) ? r.range(5, r.chance(0.2) ? 30 : 10) : r.range(1, 4), nc = no > 1 ? r.range(1, no) : 1; std::vector<double> a{double(na), double(nc)}; for (int i = 0; i < na; ++i) { a.push_back(r.below(uint32_t(huge ? mi : mixed ? 24 : 3 * ni))); a.push_back(r.chance(0.2)); a.push_back(r.below(2)); } for (int i = 0; i < nc; ++i) { a.push_back(r.below(uint32_t(huge ? mo : mixed ? 16 : 3 * no))); a.push_back(r.chance(0.15)); } p.addv("rule", a); }
    p.add("sys", {double(type), double(ni), double(no), double(r.below(2)), double(mi), double(mo), mixed ? double(1 + (r.next() >> 30)) : 0});
    for (int i = 0; i < ni; ++i) if (r.chance(0.5)) p.add("in", {double(i), r.sgn() * (r.chance(0.3) ? 0 : r.logu(0.1, 300)), big && r.chance(0.2) ? r.logu(1e-2, 1e12) : r.logu(0.1, 500), double(r.below(19)), double(r.below(19)), double(r.below(19))});
    for (int i = 0; i < no; ++i) if (r.chance(0.5)) p.add("out", {double(i), r.sgn() * (r.chance(0.3) ? 0 : r.logu(0.1, 300)), big && r.chance(0.2) ? r.logu(1e-2, 1e12) : r.logu(0.1, 500), double(r.below(19)), double(r.below(19)), double(r.below(19))});
}
void mfStep(Rng& r, Plan& p, bool out) { std::vector<double> a{double(r.below(24)), double(r.below(19)), double(r.below(10)), r.uni()}; for (int i = 0; i < 7; ++i) a.push_back(r.uni()); p.addv(out ? "omf" : "imf", a); }
void gen(Rng& r, Plan& p, int type, bool bad) {
    int rounds = r.chance(0.8) ? 1 : 2;
    while (rounds--) {
        genCfg(r, p, type, bad); int k = r.range(0, 10); while (k--) mfStep(r, p, r.chance(0.5));
        int n = r.range(4, 25);
        for (int i = 0; i < n; ++i) {
            double c = r.uni();
            if (c < 0.10) mfStep(r, p, r.chance(0.5));
            else if (c < 0.20) p.add("par", {double(r.below(4)), double(r.below(5))});
            else if (c < 0.32) p.add("dfz", {double(type == 0 ? r.below(6) : r.range(5, 7))});
            else if (c < 0.38) { std::vector<double> a; for (int q = 0; q < 8; ++q) a.push_back(r.chance(0.2) ? 0 : r.chance(0.3) ? 1 : r.uni(-0.2, 1.2)); p.addv("rw", a); }
            else if (c < 0.40) p.add("in", {double(r.below(6)), r.uni(-50, 50), r.logu(0.1, 500), double(r.below(19)), double(r.below(19)), double(r.below(19))});
            else if (c < 0.42) p.add("out", {double(r.below(3)), r.uni(-50, 50), r.logu(0.1, 500), double(r.below(19)), double(r.below(19)), double(r.below(19))});
            else if (c < 0.52) p.add("edge", {double(r.below(3)), double(r.below(3)), double(r.below(6)), double(r.below(3)), double(r.below(4)), double(r.below(10))});
            else if (c < 0.56) p.add("again", {double(r.below(2)), double(r.below(2))});
            else if (bad && c < 0.80) p.add("bad", {double(r.below(3)), double(r.below(3)), double(r.below(6)), double(r.below(8)), double(r.below(3))});
            else { int q = r.range(1, 4); while (q--) p.add("x", {double(r.below(3)), double(r.below(3)), r.uni(), r.uni(), r.uni(), r.uni()}); }
        }
    }
}
void gen22(Rng& r, Plan& p) { gen(r, p, 0, r.chance(0.1)); }
void gen23(Rng& r, Plan& p) { gen(r, p, 1 + int(r.below(2)), r.chance(0.1)); }
void gen24(Rng& r, Plan& p) { gen(r, p, int(r.below(3)), true); }
Reg r22("P22", gen22, exec), r23("P23", gen23, exec), r24("P24", gen24, exec);
}
