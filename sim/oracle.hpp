// Reference-model oracle with a measured rounding allowance.
// The model runs once in double and three times in a float type whose every operation is perturbed by about
// one unit in the last place; the distance between them is what rounding can do in this very history.
#pragma once
#include "core.hpp"
#include <algorithm>

namespace sim {

struct Noisy {
    float v;
    static uint64_t st;
    static float jig(float r, float mag = 1.2e-7f) {
        st = st * 6364136223846793005ull + 1442695040888963407ull;
        int k = (st >> 40 & 1) ? 1 : -1;
        return r + r * (float(k) * mag);
    }
    Noisy(float x = 0) : v(x) {}
    Noisy(double x) : v(float(x)) {}
    Noisy(int x) : v(float(x)) {}
};
inline Noisy mk(float r) { Noisy n; n.v = Noisy::jig(r); return n; }
inline Noisy operator+(Noisy a, Noisy b) { return mk(a.v + b.v); }
inline Noisy operator-(Noisy a, Noisy b) { return mk(a.v - b.v); }
inline Noisy operator*(Noisy a, Noisy b) { return mk(a.v * b.v); }
inline Noisy operator/(Noisy a, Noisy b) { return mk(a.v / b.v); }
inline Noisy operator-(Noisy a) { return Noisy(-a.v); }
inline Noisy& operator+=(Noisy& a, Noisy b) { a = a + b; return a; }
inline Noisy& operator-=(Noisy& a, Noisy b) { a = a - b; return a; }
inline Noisy& operator*=(Noisy& a, Noisy b) { a = a * b; return a; }
inline Noisy& operator/=(Noisy& a, Noisy b) { a = a / b; return a; }
inline bool operator<(Noisy a, Noisy b) { return a.v < b.v; }
inline bool operator>(Noisy a, Noisy b) { return a.v > b.v; }
inline bool operator<=(Noisy a, Noisy b) { return a.v <= b.v; }
inline bool operator>=(Noisy a, Noisy b) { return a.v >= b.v; }
inline double val(double x) { return x; }
inline double val(Noisy x) { return double(x.v); }
inline double mabs(double x) { return std::fabs(x); }
inline Noisy mabs(Noisy x) { return Noisy(std::fabs(x.v)); }
inline double msqrt(double x) { return std::sqrt(x); }
inline Noisy msqrt(Noisy x) { return Noisy(Noisy::jig(std::sqrt(x.v), 2e-6f)); }
inline double mexp(double x) { return std::exp(x); }
inline Noisy mexp(Noisy x) { return Noisy(Noisy::jig(std::exp(x.v), 6e-6f)); }
inline double mlog(double x) { return std::log(x); }
inline Noisy mlog(Noisy x) { float r = std::log(x.v); return Noisy(Noisy::jig(r, 3e-7f) + Noisy::jig(3e-7f, 1.0f) - 3e-7f); }
inline double mcos(double x) { return std::cos(x); }
inline Noisy mcos(Noisy x) { return Noisy(std::cos(x.v) + (Noisy::jig(1e-3f, 1.0f) - 1e-3f)); }
inline double mpow(double x, double y) { return std::pow(x, y); }
inline Noisy mpow(Noisy x, Noisy y) { return Noisy(Noisy::jig(std::pow(x.v, y.v), 2e-5f)); }
inline double msat(double x, double lo, double hi) { return x > hi ? hi : (x < lo ? lo : x); }
inline Noisy msat(Noisy x, Noisy lo, Noisy hi) { return x.v > hi.v ? hi : (x.v < lo.v ? lo : x); }

// Discontinuous decisions a model takes: margin (a - b) and the size of the jump they cause. A decision whose
// margin is within what rounding does to it cannot be attributed, so the comparison stops until the next reset.
struct Dec {
    double dv[64], dj[64]; int nd = 0;
    double fl = 0;                   // absolute error the documented law tolerates at this step, in output units
    double raw = NAN;                // output before it is clipped, when the model clips (clipping must not hide how far rounding has spread)
    bool rawHist = true;             // spread while clipped counts later on (linear systems); otherwise only what it is when the limit is left
    double ds = 0;                   // absolute slack of the decisions of this step
    double lin = 0;                  // magnitude, in output units, of accumulators whose rounding errors may add up one-sidedly
    template <class T> void dec(T a, T b, T jump) { if (nd < 64) { dv[nd] = val(a) - val(b); dj[nd] = val(jump); ++nd; } }
};

template <template <class> class M> struct Tri {
    M<double> d; M<Noisy> n[3];
    double spread = 0, scale = 0, allow = 0, linAcc = 0; bool dead = false; double K = 24, floorRel = 6e-6, decay = 0.9998;
    template <class Fn> void each(Fn fn) { fn(d); for (auto& m : n) fn(m); }
    void revive() { dead = false; spread = 0; scale = 0; allow = 0; linAcc = 0; }
    // fn(model) -> T ; compares with the library's value
    template <class Fn> void step(float lib, const char* key, const char* what, Fn fn) {
        d.nd = 0; for (auto& m : n) m.nd = 0;
        double ref = val(fn(d)), s = 0; linAcc += 1.2e-7 * std::fabs(d.lin);
        bool in = val(d.mag()) < 1e25, tied = false;
        for (auto& m : n) { double v = val(fn(m)); double e = std::fabs(v - ref); if (!(e <= s)) s = e; if (!(val(m.mag()) < 1e25)) in = false; }
        bool clip = false; double sr = s;
        if (!std::isnan(d.raw)) { for (auto& m : n) { double e = std::fabs(m.raw - d.raw); if (!(e <= sr)) sr = e; } clip = std::fabs(d.raw - ref) > K * std::max(sr, d.rawHist ? spread : 0.0) + linAcc + d.fl + 1e-5 * std::fabs(d.raw); if (d.rawHist || !clip) s = sr; }
        observe(lib);
        if (!in && !dead) { dead = true; sh->outOfDomain++; }     // the documented law itself overflows: no claim until the next reset
        for (auto& m : n) if (m.nd != d.nd) tied = true;
        for (int i = 0; i < d.nd && !tied; ++i) {
            double q = 0; for (auto& m : n) q = std::max(q, std::fabs(m.dv[i] - d.dv[i]));
            q = q * K + linAcc + d.ds; if (std::fabs(d.dv[i]) <= q && d.dj[i] > q) tied = true;
        }
        if (dead || tied) { dead = true; sh->skipped++; return; }
        if (!(std::fabs(ref) < 1e30) || !(s < 1e30)) { dead = true; sh->outOfDomain++; return; }
        spread = std::max(spread * decay, s); scale = std::max(scale * decay, std::fabs(ref));
        allow = K * spread + floorRel * scale + linAcc + d.fl + 1e-30;
        if (clip) allow = 1e-6 * std::fabs(ref) + 1e-30;      // beyond the limit whatever the rounding
        else
        // rounding has been amplified beyond use (unstable or chaotic loop): no claim until the next reset
        if (allow > 0.02 * scale + 1e-12) { dead = true; sh->skipped++; return; }
        sh->compares++;
        if (allow < 2e-3 * std::max(scale, 1e-12)) sh->tight++;
        double err = std::fabs(double(lib) - ref);
        if (!(err <= allow)) fail(key, "%s: library %.9g, reference %.9g, difference %.3g, rounding allowance %.3g", what, double(lib), ref, err, allow);
    }
};
} // namespace sim
