// Interpolators over table and method changes (P33); arrays, matrices and fixed-point registers over operation histories (P34, P35).
#include "core.hpp"
#include "oracle.hpp"
#include <qlibs.h>
#include <include/mat.hpp>
#include <include/algorithm.hpp>
#include <include/interp1.hpp>
#include <algorithm>
#include <memory>
#include <sstream>
using namespace sim;
using namespace qlibs;

namespace {
// ------------------------------------------------------------------ P33 interpolators
struct Bank { size_t n = 0; float *x = nullptr, *y = nullptr; };
// value of the method over the table; T is double or the perturbed float
template <class T> T refInterp(int m, float xf, const Bank& b, bool right = false) {
    const size_t n = b.n; auto X = [&](size_t i) { return T(b.x[i]); }; auto Y = [&](size_t i) { return T(b.y[i]); }; const T x(xf);
    const bool below = xf < b.x[0], above = xf > b.x[n - 1];
    size_t i = 0;                                   // interval [i, i+1] that holds x, or the one next to it
    if (above) i = n - 2; else while (i + 2 < n && (xf > b.x[i + 1] || (right && xf == b.x[i + 1]))) ++i;
    const T one(1.0), two(2.0), three(3.0), half(0.5);
    auto line = [&] { return above ? Y(n - 1) + (Y(n - 2) - Y(n - 1)) / (X(n - 2) - X(n - 1)) * (x - X(n - 1)) : Y(i) + (Y(i + 1) - Y(i)) / (X(i + 1) - X(i)) * (x - X(i)); };
    switch (m) {
        case INTERP1_LINEAR: return line();
        case INTERP1_SINE: {
            if (above) { T w = half - half * mcos(T(3.14159265358979) * (x - X(n - 1)) / (X(n - 2) - X(n - 1))); return Y(n - 1) + w * (Y(n - 2) - Y(n - 1)); }
            T w = half - half * mcos(T(3.14159265358979) * (x - X(i)) / (X(i + 1) - X(i))); return Y(i) + w * (Y(i + 1) - Y(i)); }
        case INTERP1_CUBIC: {
            const T h = X(i + 1) - X(i), t = (above ? x - X(i + 1) : x - X(i)) / h, t2 = t * t, t3 = t2 * t; const T p = above ? Y(i + 1) : Y(i), q = above ? Y(i) : Y(i + 1);
            const T d0 = below ? Y(0) - Y(1) : above ? Y(n - 2) - Y(n - 3) : i >= 1 ? Y(i) - Y(i - 1) : Y(1) - Y(0), d1 = Y(i + 1) - Y(i);
            return (two * t3 - three * t2 + one) * p + (t3 - two * t2 + t) * h * d0 + (three * t2 - two * t3) * q + (t3 - t2) * h * d1; }
        case INTERP1_HERMITE: {
            if (below || above) return line();
            T s(0.0); for (size_t a = 0; a < n; ++a) { T l = Y(a); for (size_t c = 0; c < n; ++c) if (c != a) l = l * ((x - X(c)) / (X(a) - X(c))); s = s + l; } return s; }
        case INTERP1_SPLINE: {
            const T h = X(i + 1) - X(i), t = (x - X(i)) / h, t2 = t * t, t3 = t2 * t;
            auto slope = [&](size_t k) { return k == 0 ? (Y(1) - Y(0)) / (X(1) - X(0)) : k == n - 1 ? (Y(n - 1) - Y(n - 2)) / (X(n - 1) - X(n - 2)) : (Y(k + 1) - Y(k - 1)) / (X(k + 1) - X(k - 1)); };
            return (one - (three * t2 - two * t3)) * Y(i) + (three * t2 - two * t3) * Y(i + 1) + (t3 - two * t2 + t) * h * slope(i) + (t3 - t2) * h * slope(i + 1); }
        default: {                                  // constrained spline (Kruger): harmonic mean slopes, zero at turning points
            auto inv = [&](size_t k) { return (X(k + 1) - X(k)) / (Y(k + 1) - Y(k)); };
            auto in = [&](size_t k) { if (b.y[k + 1] == b.y[k] || b.y[k] == b.y[k - 1] || (b.y[k + 1] > b.y[k]) != (b.y[k] > b.y[k - 1])) return T(0.0); return two / (inv(k) + inv(k - 1)); };
            auto fd = [&](size_t k) { if (k == 0) return T(1.5) * (Y(1) - Y(0)) / (X(1) - X(0)) - half * in(1); if (k == n - 1) return T(1.5) * (Y(n - 1) - Y(n - 2)) / (X(n - 1) - X(n - 2)) - half * in(n - 2); return in(k); };
            const T f0 = fd(i), f1 = fd(i + 1), h = X(i + 1) - X(i), dy = Y(i + 1) - Y(i);
            const T l = T(-2.0) * (f1 + two * f0) / h + T(6.0) * dy / (h * h), r = two * (two * f1 + f0) / h - T(6.0) * dy / (h * h);
            const T d = (r - l) / (T(6.0) * h), c = (X(i + 1) * l - X(i) * r) / (two * h);
            const T bb = (dy - c * (X(i + 1) * X(i + 1) - X(i) * X(i)) - d * (X(i + 1) * X(i + 1) * X(i + 1) - X(i) * X(i) * X(i))) / h;
            const T a = Y(i) - bb * X(i) - c * X(i) * X(i) - d * X(i) * X(i) * X(i);
            return a + x * (bb + x * (c + x * d)); }
    }
}
void judge33(int m, float x, const Bank& b, float y) {
    const size_t n = b.n; double sc = 0; for (size_t i = 0; i < n; ++i) sc = std::max(sc, double(std::fabs(b.y[i])));
    static const char* NM[] = {"next", "previous", "nearest", "linear", "sine", "cubic", "hermite", "spline", "constrained spline"};
    if (m <= INTERP1_NEAREST) {
        bool ok = false; double want = 0;
        if (m == INTERP1_NEXT) { if (x < b.x[0]) { for (int k = 0; k < 2; ++k) ok = ok || y == b.y[k]; want = b.y[0]; } else { size_t i = 0; while (i < n - 1 && !(b.x[i] > x)) ++i; want = b.y[i]; ok = y == b.y[i]; } }
        else if (m == INTERP1_PREVIOUS) { size_t i = n - 1; while (i > 0 && b.x[i] > x) --i; want = b.y[i]; ok = y == b.y[i]; }
        else { double best = 1e300; for (size_t i = 0; i < n; ++i) best = std::min(best, std::fabs(double(x) - double(b.x[i]))); for (size_t i = 0; i < n; ++i) if (std::fabs(double(x) - double(b.x[i])) <= best * (1 + 1e-6) + 1.2e-7 * std::fabs(double(x))) { want = b.y[i]; ok = ok || y == b.y[i]; } }
        sh->compares++; sh->tight++;
        if (!ok) fail("interp.neighbour", "%s neighbour of %.9g in a table of %zu points: %.9g instead of %.9g", NM[m], double(x), n, double(y), want);
        return;
    }
    if (m == INTERP1_HERMITE && n > 24 && x >= b.x[0] && x <= b.x[n - 1]) { sh->outOfDomain++; return; }      // beyond single precision
    double ref = refInterp<double>(m, x, b), s = 0; for (int k = 0; k < 6; ++k) s = std::max(s, std::fabs(val(refInterp<Noisy>(m, x, b, k & 1)) - ref));      // a table point belongs to both intervals
    bool node = false; for (size_t i = 0; i < n; ++i) if (x == b.x[i]) { node = true; ref = double(b.y[i]); }
    double allow = 24 * s + 4e-6 * std::max(sc, std::fabs(ref)) + 1e-30, big = std::max(sc, std::fabs(ref));
    if (m == INTERP1_SINE) { double dy = 0; for (size_t i = 0; i + 1 < n; ++i) dy = std::max(dy, std::fabs(double(b.y[i + 1]) - double(b.y[i]))); allow = 1e-3 * dy + 1e-5 * sc + 1e-30; }
    if (m == INTERP1_CONSTRAINED_SPLINE) {           // a polynomial in x itself loses digits when the interval is narrow against x: first-order bound of that
        double bd = 0; size_t i = 0; while (i + 2 < n && x > b.x[i + 1]) ++i;
        for (int k = 0; k < 2; ++k, i = std::min(i + 1, n - 2)) { double h = double(b.x[i + 1]) - b.x[i], X = std::max({std::fabs(double(b.x[i])), std::fabs(double(b.x[i + 1])), std::fabs(double(x))}), f = 0; for (size_t j = i > 0 ? i - 1 : 0; j <= i + 1 && j + 1 < n; ++j) f = std::max(f, 3 * std::fabs((double(b.y[j + 1]) - b.y[j]) / (double(b.x[j + 1]) - b.x[j])));
            double l = 6 * f / h + 6 * f / h, c = X * l / h, d = l / (3 * h); bd = std::max(bd, (std::fabs(double(b.y[i])) + std::fabs(double(b.y[i + 1])) + c * X * X + d * X * X * X) * (1 + X / h)); }
        allow += 2.4e-7 * bd;
    }
    if (!(s < 1e30) || !std::isfinite(ref) || std::fabs(ref) > 1e30) { sh->outOfDomain++; return; }
    if (allow > 0.02 * big) { sh->skipped++; return; }
    sh->compares++; if (allow < 2e-3 * big) sh->tight++;
    if (!(std::fabs(double(y) - ref) <= allow)) fail(node ? "interp.node" : "interp.value", "%s interpolation at %.9g%s, table of %zu points from %.9g to %.9g: library %.9g, reference %.9g, difference %.3g, allowance %.3g", NM[m], double(x), node ? " (a table point)" : "", n, double(b.x[0]), double(b.x[n - 1]), double(y), ref, std::fabs(double(y) - ref), allow);
}
void fillBank(Bank& b, const Step& s) {             // args: bank, n, seed, kind, x0, span, amplitude, offset
    Rng r(uint64_t(s.arg(2))); int kind = int(s.n(3, 0, 7)); double span = s.r(5, 1e-3, 1e4, 10), amp = s.r(6, 1e-6, 1e6, 1), off = s.r(7, -1e6, 1e6, 0), x0 = s.r(4, -1e4, 1e4, 0);
    bool even = r.chance(0.4); double acc = 0, w = 0; std::vector<double> g(b.n); for (size_t i = 0; i < b.n; ++i) { g[i] = acc; acc += even ? 1 : r.uni(0.3, 1.7); } w = b.n > 1 ? g[b.n - 1] : 1;
    double prev = r.uni(-1, 1);
    for (size_t i = 0; i < b.n; ++i) {
        b.x[i] = float(x0 + span * g[i] / w); double v = 0;
        switch (kind) {
            case 0: v = r.uni(-1, 1); break;
            case 1: prev += r.uni(0.02, 1); v = prev; break;                  // rising
            case 2: prev -= r.uni(0.02, 1); v = prev; break;                  // falling
            case 3: v = (i & 1) ? 1 : -1; break;
            case 4: v = 1; break;
            case 5: if (r.chance(0.5)) prev = r.uni(-1, 1); v = prev; break;  // plateaus
            case 6: v = 2 * g[i] / w - 1; break;                              // straight line
            default: v = i == b.n / 2 ? 1 : 0; break;
        }
        b.y[i] = float(off + amp * v);
    }
    for (size_t i = 1; i < b.n; ++i) if (!(b.x[i] > b.x[i - 1])) b.x[i] = std::nextafter(b.x[i - 1], INFINITY);
}
void exec33(const Plan& p) {
    constexpr int NB = 4, NI = 3; Bank bk[NB]; struct Obj { interp1* ip = nullptr; int bank = -1, m = INTERP1_LINEAR; } ob[NI]; using A5 = float[5]; using A8 = float[8];
    for (auto& s : p.s) switch (s.h) {
        case H("dirt"): setDirt(int(s.n(0, 0, 4)), uint64_t(s.arg(1))); break;
        case H("bank"): {                           // new table contents; users of this table have to be given it again
            Bank& b = bk[s.n(0, 0, NB - 1)]; size_t n = size_t(s.n(1, 1, 600, 5)); if (b.n != n) { b.n = n; b.x = arr<float>(n); b.y = arr<float>(n); }
            fillBank(b, s); for (auto& o : ob) if (o.bank >= 0 && &bk[o.bank] == &b) o.bank = -1; break; }
        case H("new"): case H("data"): {
            Obj& o = ob[s.n(0, 0, NI - 1)]; int bi = int(s.n(1, 0, NB - 1)); Bank& b = bk[bi]; if (!b.n) break; int via = int(s.n(2, 0, 1)); lib();
            if (s.h == H("new") || !o.ip) {
                if (via && b.n == 5) o.ip = make<interp1>(*reinterpret_cast<A5*>(b.x), *reinterpret_cast<A5*>(b.y)); else if (via && b.n == 8) o.ip = make<interp1>(*reinterpret_cast<A8*>(b.x), *reinterpret_cast<A8*>(b.y)); else o.ip = make<interp1>(b.x, b.y, b.n);
                o.m = INTERP1_LINEAR;
            } else {
                bool k = via && b.n == 5 ? o.ip->setData(*reinterpret_cast<A5*>(b.x), *reinterpret_cast<A5*>(b.y)) : via && b.n == 8 ? o.ip->setData(*reinterpret_cast<A8*>(b.x), *reinterpret_cast<A8*>(b.y)) : o.ip->setData(b.x, b.y, b.n);
                fault(F_RECONF); if (b.n < 4) { fault(F_BADCFG); if (k) fail("interp.config", "a table of %zu points was accepted", b.n); break; } if (!k) fail("interp.config", "a table of %zu points was rejected", b.n);
            }
            o.bank = bi; break; }
        case H("meth"): { Obj& o = ob[s.n(0, 0, NI - 1)]; if (!o.ip) break; int m = int(s.n(1, 0, INTERP1_MAX - 1)); lib(); fault(F_RECONF); if (!o.ip->setMethod(interp1Method(m))) fail("interp.config", "method %d rejected", m); o.m = m; break; }
        case H("bad"): {
            Obj& o = ob[s.n(0, 0, NI - 1)]; Bank& b = bk[s.n(2, 0, NB - 1)]; if (!o.ip || !b.n) break; lib(); fault(F_BADCFG); bool k = false;
            switch (s.n(1, 0, 4)) { case 0: k = o.ip->setData(nullptr, b.y, b.n); break; case 1: k = o.ip->setData(b.x, nullptr, b.n); break; case 2: k = o.ip->setData(b.x, b.y, size_t(s.n(3, 0, 3))); break; case 3: k = o.ip->setMethod(INTERP1_MAX); break; default: k = o.ip->setMethod(interp1Method(int(INTERP1_MAX) + int(s.n(3, 0, 3)))); break; }
            if (k) fail("interp.config", "invalid configuration %ld reported success", s.n(1, 0, 4)); break; }
        case H("get"): {                            // object, where, fraction, sub, type
            Obj& o = ob[s.n(0, 0, NI - 1)]; if (!o.ip || o.bank < 0) break; const Bank& b = bk[o.bank]; int w = int(s.n(1, 0, 8)); double u = s.r(2, 0, 1, 0.5); size_t i = std::min(b.n - 1, size_t(u * double(b.n))); size_t k = b.n < 2 ? 0 : std::min(i, b.n - 2); double fr = s.r(3, 0, 1, 0.5); float x = 0;
            if (b.n < 2 && w != 8) w = 6;
            switch (w) {
                case 0: case 1: x = b.x[i]; break;
                case 2: case 3: x = float(b.x[k] + (double(b.x[k + 1]) - b.x[k]) * fr); break;
                case 4: x = float(b.x[0] - (double(b.x[1]) - b.x[0]) * fr); break;
                case 5: x = float(b.x[b.n - 1] + (double(b.x[b.n - 1]) - b.x[b.n - 2]) * fr); break;
                case 6: x = std::nextafter(b.x[i], fr < 0.5 ? -INFINITY : INFINITY); break;
                case 7: x = float((double(b.x[k]) + b.x[k + 1]) / 2); break;
                default: { static const float S[] = {NAN, INFINITY, -INFINITY, 3e38f, -3e38f, 1e-40f}; x = S[int(fr * 5.99)]; Fault F[] = {F_NAN, F_INF, F_INF, F_HUGE, F_HUGE, F_DENORM}; fault(F[int(fr * 5.99)]); break; }
            }
            lib(); simtime(0.01); int ty = int(s.n(4, 0, 2)); float y;
            if (w == 8) { y = o.ip->get(x); observe(uint64_t(y != y)); cover(3301, uint64_t(o.m), uint64_t(fr * 6)); break; }
            if (ty == 2 && std::fabs(x) < 1e6f) { x = float(int(x)); y = o.ip->get(int(x)); } else if (ty == 1) y = o.ip->get(double(x)); else y = o.ip->get(x);
            observe(y); if (b.n < (o.m == INTERP1_CUBIC || o.m >= INTERP1_SPLINE ? 4U : 2U)) { sh->compares++; if (y == y) fail("interp.short", "a table of %zu points, too short for the method, gave %.9g instead of NaN", b.n, double(y)); break; } judge33(o.m, x, b, y); cover(3300, uint64_t(o.m) + 16 * uint64_t(w), uint64_t(b.n), uint64_t(k)); break; }
        default: break;
    }
}
void gen33(Rng& r, Plan& p) {
    p.add("dirt", {double(r.below(5)), double(r.next() >> 20)}); int n = r.range(30, 160);
    auto bank = [&](int b) { double span = r.logu(0.01, 1e3), amp = r.chance(0.7) ? r.logu(0.1, 100) : r.logu(1e-4, 1e5); p.add("bank", {double(b), double(r.chance(0.3) ? 5 : r.chance(0.3) ? 8 : r.chance(0.2) ? r.range(1, 3) : r.chance(0.8) ? r.range(4, 9) : r.chance(0.7) ? r.range(4, 24) : r.range(25, r.chance(0.5) ? 80 : 600)), double(r.next() >> 16), double(r.below(8)), r.chance(0.4) ? 0 : r.uni(-3, 3) * span, span, amp, r.chance(0.6) ? 0 : r.uni(-3, 3) * amp}); };
    for (int b = 0; b < 2; ++b) bank(b);
    int live = r.range(1, 3); for (int o = 0; o < live; ++o) { p.add("new", {double(o), double(r.below(2)), double(r.below(2))}); if (r.chance(0.8)) p.add("meth", {double(o), double(r.below(INTERP1_MAX))}); }
    while (n--) {
        double c = r.uni(), o = double(r.below(uint32_t(live)));
        if (c < 0.72) { int k = r.range(1, 4); while (k--) p.add("get", {o, double(r.chance(0.05) ? 8 : r.below(8)), r.uni(), r.uni(), double(r.chance(0.8) ? 0 : r.below(3))}); }
        else if (c < 0.82) p.add("meth", {o, double(r.below(INTERP1_MAX))});
        else if (c < 0.88) p.add("data", {o, double(r.below(4)), double(r.below(2))});
        else if (c < 0.92) { int b = int(r.below(4)); bank(b); p.add("data", {o, double(b), double(r.below(2))}); }
        else if (c < 0.97) p.add("bad", {o, double(r.below(5)), double(r.below(4)), double(r.below(4))});
        else p.add("new", {o, double(r.below(4)), double(r.below(2))});
    }
}
Reg r33("P33", gen33, exec33);

// ------------------------------------------------------------------ P34 arrays
int gRec = 0;
struct Rec { int key, id; bool operator<(const Rec& o) const { return key < o.key; } bool operator==(const Rec& o) const { return key == o.key; } };
template <class T> struct El; 
template <> struct El<int> { static int mk(double v, int) { return int(v * 9); } static double num(int v) { return v; } static uint64_t id(int v) { return uint32_t(v); } };
template <> struct El<uint8_t> { static uint8_t mk(double v, int) { return uint8_t(int(v * 9) + 100); } static double num(uint8_t v) { return v; } static uint64_t id(uint8_t v) { return v; } };
template <> struct El<float> { static float mk(double v, int k) { if (k == 1) { fault(F_NAN); return NAN; } if (k == 2) { fault(F_INF); return v > 0 ? INFINITY : -INFINITY; } if (k == 3) return -0.0f; return float(v * 3); } static double num(float v) { return double(v); } static uint64_t id(float v) { uint32_t b; memcpy(&b, &v, 4); return b; } };
template <> struct El<Rec> { static Rec mk(double v, int) { return Rec{int(v * 5), ++gRec}; } static double num(const Rec& v) { return v.key; } static uint64_t id(const Rec& v) { return uint64_t(uint32_t(v.key)) << 32 | uint32_t(v.id); } };
double gThr = 0; int gCmp = 0; Rng gRnd(1); long gCalls = 0; std::vector<const void*> gSeen;
template <class T> bool predV(const T v) { return El<T>::num(v) > gThr; }
template <class T> bool predR(const T& v) { return El<T>::num(v) > gThr; }
template <class T> bool less(const T& a, const T& b) {
    if (++gCalls > 2000000) fail("array.endless", "sort does not end");
    switch (gCmp) { case 0: return a < b; case 1: return b < a; case 2: { double x = std::fabs(El<T>::num(a) - gThr), y = std::fabs(El<T>::num(b) - gThr); return x < y; } case 3: return gRnd.chance(0.5); case 4: return true; default: return false; }
}
template <class T> struct Touch; 
template <> struct Touch<int> { static void f(int& v) { gSeen.push_back(&v); v = v * 2 + 1; if (v > 1000 || v < -1000) v = 7; } };
template <> struct Touch<uint8_t> { static void f(uint8_t& v) { gSeen.push_back(&v); v = uint8_t(v * 2 + 1); } };
template <> struct Touch<float> { static void f(float& v) { gSeen.push_back(&v); v = v * 0.5f + 1; } };
template <> struct Touch<Rec> { static void f(Rec& v) { gSeen.push_back(&v); v.key += 2; } };

// contents that are hard for a sort: ordered, reversed, organ pipe, and orders in which every partition around a chosen end leaves few elements on one side
std::vector<int> layout(int f, int l, int kind, uint64_t seed) {
    Rng r(seed); int n = l - f + 1; std::vector<int> k(size_t(l + 1), 0);
    if (kind < 3) { for (int i = 0; i < n; ++i) k[size_t(f + i)] = kind == 0 ? i : kind == 1 ? n - i : std::min(i, n - i); return k; }
    int few = 1 + (kind - 3) % 3 + (kind == 7); bool mirror = kind >= 6; std::vector<int> tag(static_cast<size_t>(n)); for (int i = 0; i < n; ++i) tag[size_t(i)] = i; int s = 0, e = n - 1;
    std::vector<int> rank(size_t(n), 0);
    while (s <= e) {
        int w = std::min(few, e - s), pv = tag[size_t(e)]; std::vector<char> low(size_t(n), 0); int m = 0; while (m < w) { int q = tag[size_t(s + int(r.below(uint32_t(e - s))))]; if (!low[size_t(q)]) { low[size_t(q)] = 1; ++m; } }
        int at = s; for (int i = s; i < e; ++i) if (low[size_t(tag[size_t(i)])] != mirror) std::swap(tag[size_t(i)], tag[size_t(at++)]);
        std::swap(tag[size_t(at)], tag[size_t(e)]); rank[size_t(pv)] = at;
        if (!mirror) { for (int i = s; i < at; ++i) rank[size_t(tag[size_t(i)])] = i; s = at + 1; } else { for (int i = at + 1; i <= e; ++i) rank[size_t(tag[size_t(i)])] = i; e = at - 1; }
    }
    for (int i = 0; i < n; ++i) k[size_t(f + i)] = rank[size_t(i)]; return k;
}
struct ArrB { virtual ~ArrB() {} virtual void step(const Step& s) = 0; };
template <class T, size_t N> struct ArrT : ArrB {
    using A = T[N]; using E = El<T>; static constexpr size_t G = 2; A* a; T *base, gv; std::vector<T> m;   // G elements on either side belong to someone else
    void guard(T v) { gv = v; for (size_t i = 0; i < G; ++i) base[i] = base[G + N + i] = v; }
    ArrT() { base = static_cast<T*>(memGet(sizeof(T) * (N + 2 * G), alignof(T))); a = reinterpret_cast<A*>(base + G); guard(E::mk(3, 0)); m.resize(N); for (size_t i = 0; i < N; ++i) { m[i] = E::mk(double(i % 5) - 2, 0); (*a)[i] = m[i]; } }
    void same(const char* op, size_t f, size_t l) {
        sh->compares++; sh->tight++;
        for (size_t i = 0; i < G; ++i) if (E::id(base[i]) != E::id(gv) || E::id(base[G + N + i]) != E::id(gv)) fail("array.outside", "%s over [%zu,%zu] of %zu elements changed memory next to the array", op, f, l, N);
        for (size_t i = 0; i < N; ++i) { observe(E::id((*a)[i])); if (E::id((*a)[i]) != E::id(m[i])) fail("array.content", "%s over [%zu,%zu] of %zu elements: element %zu is %.9g instead of %.9g", op, f, l, N, i, E::num((*a)[i]), E::num(m[i])); }
    }
    void step(const Step& s) override {
        bool all = s.n(0, 0, 1); size_t f = size_t(s.n(1, 0, long(N) - 1)), l = size_t(s.n(2, 0, long(N) - 1)); if (f > l) std::swap(f, l); if (all) { f = 0; l = N - 1; }
        gThr = s.r(3, -30, 200, 0); int form = int(s.n(4, 0, 15)); lib(); A& x = *a; auto B = m.begin() + long(f), Z = m.begin() + long(l) + 1; cover(3400, s.h, N, f + 64 * l);
        switch (s.h) {
            case H("el"): { T v = E::mk(s.r(3, -30, 200, 0) / 3, form); x[f] = v; m[f] = v; break; }
            case H("lay"): { std::vector<int> k = layout(int(f), int(l), form % 8, uint64_t(s.arg(5))); for (size_t i = f; i <= l; ++i) { x[i] = E::mk(double(k[i]) * 1.2, 0); m[i] = x[i]; } break; }
            case H("sort"): {
                gCmp = form % 8 > 5 ? 0 : form % 8; gCalls = 0; bool useC = form >= 8; gRnd = Rng(uint64_t(s.arg(5))); if (useC && gCmp >= 3) fault(F_BADCFG);
                if (useC) algorithm::sort(x, f, l, &less<T>); else if (all) algorithm::sort(x); else algorithm::sort(x, f, l);
                bool nan = false; for (auto q = B; q != Z; ++q) if (E::num(*q) != E::num(*q)) nan = true;
                std::vector<uint64_t> u, v; for (size_t i = f; i <= l; ++i) { u.push_back(E::id(m[i])); v.push_back(E::id(x[i])); } std::sort(u.begin(), u.end()); std::sort(v.begin(), v.end());
                if (u != v) fail("array.permutation", "sort over [%zu,%zu] of %zu elements lost or duplicated elements", f, l, N);
                if (!nan && (!useC || gCmp < 3)) for (size_t i = f + 1; i <= l; ++i) { bool bad = useC ? less(x[i], x[i - 1]) : x[i] < x[i - 1]; if (bad) fail("array.order", "sort over [%zu,%zu] of %zu elements (%s): element %zu (%.9g) is ordered before element %zu (%.9g)", f, l, N, useC ? "comparison function" : "operator<", i, E::num(x[i]), i - 1, E::num(x[i - 1])); }
                for (size_t i = f; i <= l; ++i) m[i] = x[i]; same("sort", f, l); break; }
            case H("rev"): if (all) algorithm::reverse(x); else algorithm::reverse(x, f, l); std::reverse(B, Z); same("reverse", f, l); break;
            case H("rot"): { int k = int(s.n(3, -2147483648L, 2147483647)); if (form == 0) { k = 1; algorithm::rotate(x); } else algorithm::rotate(x, k); std::vector<T> o = m; for (size_t i = 0; i < N; ++i) m[size_t((long(i) + k) % long(N) + long(N)) % N] = o[i]; same("rotate", 0, N - 1); break; }
            case H("fill"): { T v = E::mk(s.r(3, -30, 200, 0) / 3, 0); if (all) algorithm::fill(x, v); else algorithm::fill(x, v, f, l); std::fill(B, Z, v); same("fill", f, l); break; }
            case H("repl"): { T o = m[size_t(form) % N], v = E::mk(s.r(3, -30, 200, 0) / 3, 0); if (all) algorithm::replace(x, o, v); else algorithm::replace(x, o, v, f, l); for (auto q = B; q != Z; ++q) if (*q == o) *q = v; same("replace", f, l); break; }
            case H("repif"): { T v = E::mk(s.r(3, -30, 200, 0) / 3, 0); if (all) algorithm::replace_if(x, &predR<T>, v); else algorithm::replace_if(x, &predR<T>, v, f, l); for (auto q = B; q != Z; ++q) if (predR<T>(*q)) *q = v; same("replace_if", f, l); break; }
            case H("each"): {
                gSeen.clear(); if (all) algorithm::for_each(x, &Touch<T>::f); else algorithm::for_each(x, &Touch<T>::f, f, l); std::vector<const void*> seen = gSeen; std::sort(seen.begin(), seen.end());
                if (seen.size() != l - f + 1) fail("array.visits", "for_each over [%zu,%zu] visited %zu elements", f, l, seen.size());
                for (size_t i = 0; i < seen.size(); ++i) if (seen[i] != &x[f + i]) fail("array.visits", "for_each over [%zu,%zu] of %zu elements skipped or repeated element %zu", f, l, N, f + i);
                for (auto q = B; q != Z; ++q) Touch<T>::f(*q); same("for_each", f, l); break; }
            case H("ask"): {
                T key = form & 1 ? m[size_t(form) % N] : E::mk(s.r(3, -30, 200, 0) / 3, 0); if (form & 8) guard(key); auto at = [&](T* q) { return q ? long(q - x) : -1L; };
                auto ck = [&](const char* w, long got, long want) { sh->compares++; observe(uint64_t(got)); if (got != want) fail("array.search", "%s over [%zu,%zu] of %zu elements: %ld instead of %ld", w, f, l, N, got, want); };
                long want = -1; for (size_t i = f; i <= l && want < 0; ++i) if (m[i] == key) want = long(i); ck("find", at(all ? algorithm::find(x, key) : algorithm::find(x, key, f, l)), want);
                want = -1; long cnt = 0; for (size_t i = f; i <= l; ++i) if (predV<T>(m[i])) { ++cnt; if (want < 0) want = long(i); }
                ck("find_if", at(all ? algorithm::find_if(x, &predV<T>) : algorithm::find_if(x, &predV<T>, f, l)), want);
                ck("count_if", long(all ? algorithm::count_if(x, &predV<T>) : algorithm::count_if(x, &predV<T>, f, l)), cnt);
                ck("any_of", all ? algorithm::any_of(x, &predV<T>) : algorithm::any_of(x, &predV<T>, f, l), cnt > 0);
                ck("all_of", all ? algorithm::all_of(x, &predV<T>) : algorithm::all_of(x, &predV<T>, f, l), cnt == long(l - f + 1));
                bool sorted = true; for (size_t i = f; i <= l; ++i) { double v = E::num(m[i]); if (v != v || (i > f && m[i] < m[i - 1])) sorted = false; }
                if (sorted && E::num(key) == E::num(key)) { T* q = all ? algorithm::binary_search(x, key) : algorithm::binary_search(x, key, f, l); bool there = false; for (size_t i = f; i <= l; ++i) if (m[i] == key) there = true; sh->compares++;
                    if (there != (q != nullptr) || (q && (q < x + f || q > x + l || !(*q == key)))) fail("array.search", "binary_search over [%zu,%zu] of %zu sorted elements: %s %.9g", f, l, N, there ? "did not find" : "found", E::num(key)); }
                same("search", f, l); break; }
            case H("swap"): { size_t i = f, j = l; algorithm::swap(x[i], x[j]); T t = m[i]; m[i] = m[j]; m[j] = t; same("swap", f, l); break; }
            default: break;
        }
    }
};
template <class T> ArrB* mkArr(int n) { switch (n) { case 0: return new ArrT<T, 1>; case 1: return new ArrT<T, 2>; case 2: return new ArrT<T, 3>; case 3: return new ArrT<T, 6>; case 4: return new ArrT<T, 13>; case 5: return new ArrT<T, 40>; default: return new ArrT<T, 300>; } }

// ------------------------------------------------------------------ P34 matrices
struct MatB { virtual ~MatB() {} virtual void step(const Step& s) = 0; };
using DM = std::vector<double>;
template <size_t R, size_t C> struct MatT : MatB {
    using M = mat<R, C>; M* x; DM v; 
    static DM get(const mat<R, C>& m) { DM o; for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) o.push_back(double(m[i][j])); return o; }
    template <size_t P, size_t Q> static void cmp(const char* op, const mat<P, Q>& g, const DM& want, const DM& mag) {
        sh->compares++; sh->tight++;
        for (size_t i = 0; i < P; ++i) for (size_t j = 0; j < Q; ++j) {
            double a = double(g[i][j]), w = want[i * Q + j], t = 4e-7 * mag[i * Q + j] + 1e-44; observe(float(a));
            if (!std::isfinite(w) || !(mag[i * Q + j] < 1e37)) continue;                     // overflow or not a number: judged below
            if (!(std::fabs(a - w) <= t)) fail("matrix.value", "%s of %zux%zu matrices: element (%zu,%zu) is %.9g instead of %.9g", op, R, C, i, j, a, w);
        }
        for (size_t i = 0; i < P * Q; ++i) if (want[i] != want[i] ? g[i / Q][i % Q] == g[i / Q][i % Q] : std::isinf(want[i]) && std::isfinite(g[i / Q][i % Q])) fail("matrix.nan", "%s hides a value that is not a number", op);
    }
    MatT() { x = make<M>(); v = get(*x); for (double q : v) if (q != 0) fail("matrix.value", "a new matrix is not zero"); }
    template <size_t... I> void fromList(const DM& n, std::index_sequence<I...>) { M t(static_cast<float>(n[I])...); *x = t; }
    void load(uint64_t seed, int kind) {
        Rng r(seed); DM n(R * C); for (auto& q : n) q = double(float(r.uni(-4, 4)));
        if (kind == 1) for (auto& q : n) q = double(int(q)); 
        if (kind == 2 && R == C) { for (auto& q : n) q = 0; std::vector<size_t> pm(R); for (size_t i = 0; i < R; ++i) pm[i] = i; for (size_t i = R; i-- > 1;) std::swap(pm[i], pm[r.below(uint32_t(i + 1))]); for (size_t i = 0; i < R; ++i) n[i * C + pm[i]] = double(float(r.uni(0.3, 3) * r.sgn())); for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) if (r.chance(0.3) && n[i * C + j] == 0) n[i * C + j] = double(float(r.uni(-0.2, 0.2))); }
        if (kind == 3) { n[r.below(uint32_t(R * C))] = r.chance(0.5) ? NAN : INFINITY; fault(F_NAN); }
        if (seed % 7 == 3) { fromList(n, std::make_index_sequence<R * C>()); v = n; for (auto& q : n) q = 1e-30; cmp("matrix from a list of elements", *x, v, n); return; }
        for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) { switch ((i + j + seed) % 3) { case 0: (*x)(i, j) = float(n[i * C + j]); break; case 1: (*x)(i * C + j) = float(n[i * C + j]); break; default: (*x)[i][j] = float(n[i * C + j]); break; } }
        v = n;
    }
    DM el(const DM& o, double (*fn)(double, double)) { DM n(R * C); for (size_t i = 0; i < R * C; ++i) n[i] = fn(v[i], o[i]); return n; }
    DM mg(const DM& o, const DM& n) { DM m(R * C); for (size_t i = 0; i < R * C; ++i) m[i] = std::fabs(n[i]); (void)o; return m; }
    template <size_t P, size_t K, size_t Q> static void mul(const DM& a, const DM& b, DM& n, DM& m) { n.assign(P * Q, 0); m.assign(P * Q, 0); for (size_t i = 0; i < P; ++i) for (size_t j = 0; j < Q; ++j) for (size_t k = 0; k < K; ++k) { double t = a[i * K + k] * b[k * Q + j]; n[i * Q + j] += t; m[i * Q + j] += double(K) * std::fabs(t); } }
    template <size_t P> static bool inverse(DM a, DM& b, double& cond) {
        b.assign(P * P, 0); for (size_t i = 0; i < P; ++i) b[i * P + i] = 1; double na = 0, nb = 0; for (double q : a) na = std::max(na, std::fabs(q));
        for (size_t i = 0; i < P; ++i) { size_t p = i; for (size_t j = i; j < P; ++j) if (std::fabs(a[j * P + i]) > std::fabs(a[p * P + i])) p = j; if (!(std::fabs(a[p * P + i]) > 1e-9 * na)) return false;
            for (size_t k = 0; k < P; ++k) { std::swap(a[i * P + k], a[p * P + k]); std::swap(b[i * P + k], b[p * P + k]); } double d = a[i * P + i]; for (size_t k = 0; k < P; ++k) { a[i * P + k] /= d; b[i * P + k] /= d; }
            for (size_t j = 0; j < P; ++j) if (j != i) { double f = a[j * P + i]; for (size_t k = 0; k < P; ++k) { a[j * P + k] -= f * a[i * P + k]; b[j * P + k] -= f * b[i * P + k]; } } }
        for (double q : b) nb = std::max(nb, std::fabs(q)); cond = na * nb * double(P * P); return cond == cond;
    }
    template <size_t P = R, size_t Q = C> typename std::enable_if<P == Q>::type square(const Step& s, int op) {
        DM n, m;
        switch (op) {
            case 0: { M y = *x; mul<R, R, R>(v, v, n, m); if (s.n(3, 0, 1)) { *x *= *x; cmp("M *= M", *x, n, m); } else { *x = *x * y; cmp("M = M*M", *x, n, m); } break; }
            case 1: { double c; for (double q : v) if (!std::isfinite(q)) { sh->skipped++; return; } if (!inverse<R>(v, n, c) || !(c < 3e3)) { sh->skipped++; return; } double mx = 0; for (double q : n) mx = std::max(mx, std::fabs(q)); m.assign(R * R, 50 * c * mx); M y = x->inv(); cmp("inverse", y, n, m); if (s.n(3, 0, 1)) *x = y; else { M z(y); *x = z; } break; }
            default: { float w = s.r(2, -100, 100, 1); bool def = s.n(3, 0, 1); if (def) w = 1; M y = def ? M(MAT_IDENTITY) : M(MAT_IDENTITY, w); n.assign(R * R, 0); for (size_t i = 0; i < R; ++i) n[i * R + i] = double(w); m.assign(R * R, 100); for (auto& q : m) q = 1e-30; cmp("identity", y, n, m); M z(MAT_ALL, w); n.assign(R * R, double(w)); cmp("constant matrix", z, n, m); M o(MAT_ZERO); n.assign(R * R, 0); cmp("zero matrix", o, n, m); *x = y; break; }
        }
    }
    template <size_t P = R, size_t Q = C> typename std::enable_if<P != Q>::type square(const Step&, int) {}
    void step(const Step& s) override {
        lib(); int op = int(s.n(0, 0, 40)); float k = s.r(2, -100, 100, 1); uint64_t seed = uint64_t(s.arg(1)); DM n(R * C), m(R * C); cover(3401, uint64_t(op), R, C);
        M& X = *x; M Y; { Rng r(seed); for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) Y[i][j] = float(r.uni(-3, 3)); } DM y = get(Y);
        if (s.n(3, 0, 7) == 7) { Y = X; y = v; }                           // same operand on both sides
        auto sc = [&](const char* w, std::function<double(double)> fn) { for (size_t i = 0; i < R * C; ++i) { n[i] = fn(v[i]); m[i] = std::fabs(n[i]); } cmp(w, X, n, m); };
        auto bi = [&](const char* w, double sg) { for (size_t i = 0; i < R * C; ++i) { n[i] = v[i] + sg * y[i]; m[i] = std::fabs(n[i]); } cmp(w, X, n, m); };
        auto keep = [&](const char* w, const M& o) { DM g = get(o); for (size_t i = 0; i < R * C; ++i) m[i] = 1e-30; cmp(w, o, v, m); };
        switch (op) {
            case 0: case 1: case 2: load(seed, int(s.n(3, 0, 7)) % 4); break;
            case 3: X += Y; bi("M += N", 1); break;
            case 4: X -= Y; bi("M -= N", -1); break;
            case 5: X = X + Y; bi("M + N", 1); break;
            case 6: X = X - Y; bi("M - N", -1); break;
            case 7: X += k; sc("M += s", [&](double q) { return q + double(k); }); break;
            case 8: X -= k; sc("M -= s", [&](double q) { return q - double(k); }); break;
            case 9: X *= k; sc("M *= s", [&](double q) { return q * double(k); }); break;
            case 10: if (k == 0) break; X /= k; sc("M /= s", [&](double q) { return q / double(k); }); break;
            case 11: X = X + k; sc("M + s", [&](double q) { return q + double(k); }); break;
            case 12: X = X - k; sc("M - s", [&](double q) { return q - double(k); }); break;
            case 13: X = k + X; sc("s + M", [&](double q) { return q + double(k); }); break;
            case 14: X = k - X; sc("s - M", [&](double q) { return double(k) - q; }); break;
            case 15: X = X * k; sc("M * s", [&](double q) { return q * double(k); }); break;
            case 16: X = k * X; sc("s * M", [&](double q) { return q * double(k); }); break;
            case 17: if (k == 0) break; X = X / k; sc("M / s", [&](double q) { return q / double(k); }); break;
            case 18: X = -X; sc("-M", [&](double q) { return -q; }); break;
            case 19: { M& o = ++X; if (&o != &X) fail("matrix.value", "++M is not the matrix"); sc("++M", [&](double q) { return q + 1; }); break; }
            case 20: { M& o = --X; if (&o != &X) fail("matrix.value", "--M is not the matrix"); sc("--M", [&](double q) { return q - 1; }); break; }
            case 21: { M o = X++; keep("value of M++", o); sc("M++", [&](double q) { return q + 1; }); break; }
            case 22: { M o = X--; keep("value of M--", o); sc("M--", [&](double q) { return q - 1; }); break; }
            case 23: { mat<C, R> t = !X; DM w(R * C), g(R * C, 1e-30); for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) w[j * R + i] = v[i * C + j]; cmp("transpose", t, w, g); mat<R, R> pr = X * t; mul<R, C, R>(v, w, n, m); cmp("M * transpose", pr, n, m); mat<C, C> pl = t * X; mul<C, R, C>(w, v, n, m); cmp("transpose * M", pl, n, m); X = !t; keep("transpose twice", X); break; }
            case 24: { double best = 0; bool nan = false; for (size_t i = 0; i < R; ++i) { double t = 0; for (size_t j = 0; j < C; ++j) t += std::fabs(v[i * C + j]); if (t != t || t > 1e37) nan = true; best = std::max(best, t); } double g = double(X.normInf()); observe(float(g)); sh->compares++; if (!nan && !(std::fabs(g - best) <= 4e-6 * best + 1e-44)) fail("matrix.norm", "infinity norm of a %zux%zu matrix is %.9g instead of %.9g", R, C, g, best); break; }
            case 25: { M z(X); keep("copy", z); M w; w = z; keep("assignment", w); X = X; keep("assignment to itself", X); break; }
            case 26: X += X; for (size_t i = 0; i < R * C; ++i) { n[i] = v[i] * 2; m[i] = std::fabs(n[i]); } cmp("M += M", X, n, m); break;
            case 27: { const M& c = X; for (size_t i = 0; i < R * C; ++i) { float a = c(i), b = X(i / C, i % C), d = c[i / C][i % C]; if (!((a == b && b == d) || (a != a && b != b && d != d))) fail("matrix.value", "element access disagrees"); } keep("reading", X); break; }
            case 28: { mat<C, C> t; Rng r(seed); for (size_t i = 0; i < C; ++i) for (size_t j = 0; j < C; ++j) t[i][j] = float(r.uni(-1, 1)); DM w; for (size_t i = 0; i < C; ++i) for (size_t j = 0; j < C; ++j) w.push_back(double(t[i][j])); mul<R, C, C>(v, w, n, m); X *= t; cmp("M *= N", X, n, m); break; }
            case 29: case 30: square(s, 0); break;
            case 31: case 32: case 33: case 34: square(s, 1); break;
            default: square(s, 2); break;
        }
        v = get(X); for (double q : v) if (std::isfinite(q) ? !(std::fabs(q) < 1e8) : seed % 4 == 0) { load(seed ^ 0x55, 0); break; }
    }
};
MatB* mkMat(int k) { switch (k) { case 0: return new MatT<1, 1>; case 1: return new MatT<2, 2>; case 2: return new MatT<3, 3>; case 3: return new MatT<4, 4>; case 4: return new MatT<2, 3>; case 5: return new MatT<4, 2>; case 6: return new MatT<1, 5>; case 7: return new MatT<5, 1>; default: return new MatT<6, 6>; } }
void exec34(const Plan& p) {
    gRec = 0; std::unique_ptr<ArrB> a[3]; std::unique_ptr<MatB> m[2]; int ca = 0, cm = 0;
    for (auto& s : p.s) switch (s.h) {
        case H("dirt"): setDirt(int(s.n(0, 0, 4)), uint64_t(s.arg(1))); break;
        case H("arr"): { ca = int(s.n(0, 0, 2)); int n = int(s.n(2, 0, 6)); if (!a[ca] || s.n(3, 0, 1)) switch (s.n(1, 0, 3)) { case 0: a[ca].reset(mkArr<int>(n)); break; case 1: a[ca].reset(mkArr<float>(n)); break; case 2: a[ca].reset(mkArr<Rec>(n)); break; default: a[ca].reset(mkArr<uint8_t>(n)); break; } break; }
        case H("mat"): { cm = int(s.n(0, 0, 1)); if (!m[cm] || s.n(2, 0, 1)) m[cm].reset(mkMat(int(s.n(1, 0, 8)))); break; }
        case H("m"): if (m[cm]) m[cm]->step(s); break;
        default: if (a[ca]) a[ca]->step(s); break;
    }
}
void gen34(Rng& r, Plan& p) {
    p.add("dirt", {double(r.below(5)), double(r.next() >> 20)}); int n = r.range(20, 150); bool mats = r.chance(0.45); static const char* OPS[] = {"sort", "rev", "rot", "fill", "repl", "repif", "each", "ask", "swap"};
    if (mats) p.add("mat", {0, double(r.below(9)), 1}); else p.add("arr", {0, double(r.below(4)), r.chance(0.03) ? 6.0 : double(r.below(6)), 1});
    while (n--) {
        if (mats) { if (r.chance(0.05)) p.add("mat", {double(r.below(2)), double(r.below(9)), double(r.below(2))}); p.add("m", {double(r.below(37)), double(r.next() >> 16), r.chance(0.3) ? double(r.range(-4, 4)) : r.uni(-10, 10), double(r.below(8))}); continue; }
        if (r.chance(0.04)) p.add("arr", {double(r.below(3)), double(r.below(4)), double(r.below(6)), double(r.below(2))});
        double all = double(r.chance(0.35)), f = double(r.below(40)), l = double(r.below(40)); if (r.chance(0.5)) { f = double(r.below(6)); l = f + double(r.below(12)); } else if (r.chance(0.1)) l = double(r.below(300));
        double c = r.uni();
        if (c < 0.1) { p.add("lay", {all, f, l, 0, double(r.below(8)), double(r.next() >> 16)}); if (r.chance(0.7)) p.add("sort", {all, f, l, 0, double(r.chance(0.5) ? 0 : r.below(16)), 0}); }
        else if (c < 0.35) { int k = r.range(1, 12); while (k--) p.add("el", {0, double(r.below(40)), 39, r.uni(-3, 3) * 3, r.chance(0.06) ? double(r.range(1, 3)) : 0}); }
        else p.add(OPS[r.below(9)], {all, f, l, r.chance(0.02) ? (r.chance(0.5) ? -2147483648.0 + double(r.below(3)) : 2147483647.0 - double(r.below(3))) : r.chance(0.5) ? double(r.range(-45, 45)) : r.uni(-9, 9), double(r.below(16)), double(r.next() >> 16)});
    }
}
Reg r34("P34", gen34, exec34);

// ------------------------------------------------------------------ P35: fixed-point registers
constexpr int NFP = 6; constexpr double LSB = 1.0 / 65536; constexpr int64_t FPMAX = 2147483647, FPOVF = -2147483648LL;
struct FpBench {
    fp16* R[NFP]; int64_t m[NFP];
    FpBench() { for (int i = 0; i < NFP; ++i) { lib(); R[i] = make<fp16>(); m[i] = 0; } same("construction", -1); }
    void same(const char* op, int except) { sh->compares++; for (int i = 0; i < NFP; ++i) { observe(uint64_t(R[i]->raw())); if (i != except && R[i]->raw() != m[i]) fail("fixed.register", "%s changed register %d from %.6f to %.6f", op, i, double(m[i]) * LSB, double(R[i]->raw()) * LSB); } }
    // the value of operation 'op' against its exact result (in units of the last place)
    void value(const char* op, int64_t got, long double exact, long double tol, double a, double b) {
        sh->compares++; sh->tight++; bool ov = std::fabs(exact) > (long double)FPMAX + tol, may = std::fabs(exact) > (long double)FPMAX - tol; if (ov) fault(F_HUGE);
        if (got == FPOVF) { if (!ov && !may) fail("fixed.overflow", "%s of %.6f and %.6f reports an overflow, the result is %.6Lf", op, a, b, exact * LSB); }
        else if (ov) fail("fixed.wrapped", "%s of %.6f and %.6f does not fit and gives %.6f instead of an overflow", op, a, b, double(got) * LSB);
        else if (!(std::fabs((long double)got - exact) <= tol)) fail("fixed.value", "%s of %.6f and %.6f: %.6f, exact result %.6Lf", op, a, b, double(got) * LSB, exact * LSB);
    }
    void take(const char* op, int d) { same(op, d); m[d] = R[d]->raw(); if (R[d]->isOverflow() != (m[d] == FPOVF)) fail("fixed.overflow", "isOverflow() of %.6f", double(m[d]) * LSB); }
    bool bad(int i) const { return m[i] == FPOVF; }
    void bin(int k, int d, int a, int b, bool inplace) {
        if (bad(a) || bad(b)) return; static const char* N[] = {"sum", "difference", "product", "quotient"}; long double A = (long double)m[a], B = (long double)m[b]; lib(); fp16 &x = *R[a], &y = *R[b]; if (inplace) d = a; const double va = double(m[a]) * LSB, vb = double(m[b]) * LSB;
        if (k == 3 && m[b] == 0) fault(F_DROP_ZERO);
        if (inplace) switch (k) { case 0: x += y; break; case 1: x -= y; break; case 2: x *= y; break; default: x /= y; break; }
        else switch (k) { case 0: *R[d] = x + y; break; case 1: *R[d] = x - y; break; case 2: *R[d] = x * y; break; default: *R[d] = x / y; break; }
        int64_t g = R[d]->raw();
        if (k == 3 && B == 0) { if (g != -FPMAX && g != FPOVF) fail("fixed.value", "%.6f divided by zero gives %.6f", va, double(g) * LSB); }
        else value(N[k], g, k == 0 ? A + B : k == 1 ? A - B : k == 2 ? A * B / 65536 : A * 65536 / B, k < 2 ? 0 : 0.5L, va, vb);
        take(N[k], d); cover(3500, uint64_t(k) + 8 * inplace, uint64_t(bucket(float(va)) + 200), uint64_t(bucket(float(vb)) + 200));
    }
    void un(int k, int d, int a) {
        if (bad(a)) return; lib(); fp16& x = *R[a]; long double A = (long double)m[a], e = 0; const double va = double(m[a]) * LSB; int64_t g; static const char* N[] = {"negation", "increment", "decrement", "increment", "decrement", "floor", "ceil", "rounding", "absolute value", "square root", "wrapToPi", "wrapTo180", "copy", "copy"};
        const int64_t old = m[a]; bool onSelf = k >= 1 && k <= 4;
        switch (k) {
            case 0: *R[d] = -x; e = -A; break;
            case 1: ++x; e = A + 65536; break; case 2: --x; e = A - 65536; break;
            case 3: { fp16 o = x++; e = A + 65536; if (o.raw() != old) fail("fixed.value", "post-increment of %.6f answers %.6f", va, double(o.raw()) * LSB); break; } case 4: { fp16 o = x--; e = A - 65536; if (o.raw() != old) fail("fixed.value", "post-decrement of %.6f answers %.6f", va, double(o.raw()) * LSB); break; }
            case 5: *R[d] = fp16::floor(x); e = std::floor(A / 65536) * 65536; break; case 6: *R[d] = fp16::ceil(x); e = std::ceil(A / 65536) * 65536; break; case 7: *R[d] = fp16::rounding(x); break;
            case 8: *R[d] = fp16::absolute(x); e = std::fabs(A); break; case 9: *R[d] = fp16::sqrt(x); e = A < 0 ? 1e18L : std::sqrt(A / 65536) * 65536; break;
            case 10: *R[d] = fp16::wrapToPi(x); break; case 11: *R[d] = fp16::wrapTo180(x); break; case 12: *R[d] = x; e = A; break; default: { fp16 c(x); *R[d] = c; e = A; break; }
        }
        if (onSelf) d = a; g = R[d]->raw(); sh->compares++;
        if (k == 7) { bool edge = std::fabs(A) >= (long double)FPMAX - 32768 && g == FPOVF; if (!edge && (g == FPOVF || g % 65536 != 0 || std::fabs((long double)g - A) > 32768)) fail("fixed.value", "nearest integer of %.6f: %.6f", va, double(g) * LSB); }
        else if (k == 10 || k == 11) { long double T = k == 10 ? 2 * 3.14159265358979323846L * 65536 : 360 * 65536, lim = T / 2 + (k == 10), n = std::floor((A - (long double)g) / T + 0.5L), er = std::fabs(A - (long double)g - n * T); if (std::fabs((long double)g) > lim || er > 1 + 0.3L * std::fabs(n) * (k == 10)) fail("fixed.value", "%s of %.6f gives %.6f", N[k], va, double(g) * LSB); }
        else if (k == 8 && m[a] == -FPMAX) { if (g != FPOVF && g != FPMAX) fail("fixed.value", "absolute value of %.6f: %.6f", va, double(g) * LSB); }
        else value(N[k], g, e, k == 9 ? 0.51L : 0, va, 0);
        take(N[k], d); cover(3501, uint64_t(k), uint64_t(bucket(float(va)) + 200));
    }
    void set(int d, int how, double v) {
        lib(); double lim = 32767.99; if (v > lim) v = lim; if (v < -lim) v = -lim; long double e = 0, tol = 0.5L;
        switch (how) { case 0: { int i = int(v); *R[d] = i; e = (long double)i * 65536; tol = 0; break; } case 1: { float f = float(v); *R[d] = f; e = (long double)f * 65536; tol = std::fabs(e) > 4e6 ? 1.01L : 0.5L; break; } case 2: *R[d] = v; e = (long double)v * 65536; break;
            case 3: { int i = int(v); *R[d] = fp16::from(i); e = (long double)i * 65536; tol = 0; break; } case 4: { float f = float(v); *R[d] = fp16::from(f); e = (long double)f * 65536; tol = std::fabs(e) > 4e6 ? 1.01L : 0.5L; break; } case 5: *R[d] = fp16::from(v); e = (long double)v * 65536; break;
            default: { static const fp16 K[] = {FP_E, FP_LOG2E, FP_LOG10E, FP_LN2, FP_LN10, FP_PI, FP_PI_2, FP_PI_4, FP_1_PI, FP_2_PI, FP_2_SQRTPI, FP_SQRT2, FP_SQRT1_2, 32767.5_fp, 3_fp, 0.00002_fp}; static const double C[] = {M_E, M_LOG2E, M_LOG10E, M_LN2, M_LN10, M_PI, M_PI_2, M_PI_4, M_1_PI, M_2_PI, M_2_SQRTPI, M_SQRT2, M_SQRT1_2, 32767.5, 3, 0.00002}; int i = int(std::fabs(v)) % 16; *R[d] = K[i]; e = (long double)C[i] * 65536; break; } }
        value("conversion", R[d]->raw(), e, tol, double(e) * LSB, 0); take("conversion", d);
    }
    void ask(int a, int b, int dec) {
        lib(); if (bad(a)) { char t[40]; fp16::toASCII(*R[a], t, dec); if (strcmp(t, "overflow") != 0) fail("fixed.text", "an overflow is written as '%s'", t); return; } if (bad(b)) return;
        const fp16 &x = *R[a], &y = *R[b]; int64_t A = m[a], B = m[b]; sh->compares++; const double v = double(A) * LSB;
        if ((x < y) != (A < B) || (x <= y) != (A <= B) || (x > y) != (A > B) || (x >= y) != (A >= B) || (x == y) != (A == B) || (x != y) != (A != B)) fail("fixed.order", "comparison of %.6f and %.6f", v, double(B) * LSB);
        int i = fp16::toInt(x); if (std::fabs(i - v) > 0.5) fail("fixed.value", "%.6f as an integer: %d", v, i); double q = fp16::toDouble(x); if (q != v) fail("fixed.value", "%.9f as a double: %.9f", v, q); float f = fp16::toFloat(x); if (std::fabs(double(f) - v) > 1.3e-7 * std::fabs(v)) fail("fixed.value", "%.9f as a float: %.9f", v, double(f));
        char t[40]; memset(t, 'x', sizeof t); char* ret = fp16::toASCII(x, t + 8, dec); t[39] = 0; int n = dec < 0 ? 0 : dec > 5 ? 5 : dec; char* end = nullptr; double w = strtod(t + 8, &end); const char* dot = strchr(t + 8, '.'); size_t L = strlen(t + 8), digits = dot ? L - size_t(dot - (t + 8)) - 1 : 0;
        if (ret != t + 8 || t[7] != 'x' || *end != 0 || digits != size_t(n) || (n == 0) != (dot == nullptr) || std::fabs(w - v) > 0.5001 * std::pow(10, -n) + 8e-6) fail("fixed.text", "%.6f with %d decimals is written as '%s'", v, dec, t + 8);
        const char* c = t + 8; if (*c == '-' && A < 0) ++c; if (!isdigit(*c) || (*c == '0' && isdigit(c[1]))) fail("fixed.text", "%.6f with %d decimals is written as '%s'", v, dec, t + 8);
        for (size_t j = 8 + L + 1; j < 39; ++j) if (t[j] != 'x') fail("fixed.text", "text of %.6f wrote behind its end", v);
        if ((dec & 1) == 0 && dec >= 0) { std::ostringstream os; os.precision(dec); os << x; if (os.str() != std::string(t + 8)) fail("fixed.text", "%.6f on a stream: '%s'", v, os.str().c_str()); }
        same("conversion", -1); observe(uint64_t(L)); cover(3502, uint64_t(n), uint64_t(bucket(float(v)) + 200));
    }
};
void exec35(const Plan& p) {
    std::unique_ptr<FpBench> b; auto up = [&]() -> FpBench& { if (!b) b.reset(new FpBench); return *b; };
    for (auto& s : p.s) switch (s.h) {
        case H("dirt"): setDirt(int(s.n(0, 0, 4)), uint64_t(s.arg(1))); break;
        case H("set"): up().set(int(s.n(0, 0, NFP - 1)), int(s.n(1, 0, 6)), double(s.r(2, -40000, 40000, 0))); break;
        case H("raw"): { FpBench& q = up(); int d = int(s.n(0, 0, NFP - 1)); q.set(d, 2, double(s.arg(1)) * LSB); break; }
        case H("bin"): up().bin(int(s.n(0, 0, 3)), int(s.n(1, 0, NFP - 1)), int(s.n(2, 0, NFP - 1)), int(s.n(3, 0, NFP - 1)), s.n(4, 0, 1)); break;
        case H("un"): up().un(int(s.n(0, 0, 13)), int(s.n(1, 0, NFP - 1)), int(s.n(2, 0, NFP - 1))); break;
        case H("ask"): up().ask(int(s.n(0, 0, NFP - 1)), int(s.n(1, 0, NFP - 1)), int(s.n(2, -2, 8))); break;
        case H("filt"): {                           // a low-pass filter in fixed point, sample by sample: y += a*(x - y)
            FpBench& q = up(); Signal g(uint64_t(s.arg(1)), int(s.n(2, 0, SIG_KINDS - 1)), s.r(3, -20000, 20000, 1), 0, 20); long n = s.n(0, 0, 200);
            while (n--) { double v = g.next(); if (!(std::fabs(v) < 32000)) v = 32000; simtime(0.01); q.set(1, 1, v); q.bin(1, 2, 1, 0, false); q.bin(2, 2, 3, 2, false); int64_t k = q.m[0]; q.bin(0, 0, 0, 2, true); if (q.bad(0)) { q.set(0, 2, double(k) * LSB); } } break; }
        case H("acc"): {                            // an accumulator that holds its value when the next step would overflow
            FpBench& q = up(); long n = s.n(0, 0, 300); int k = int(s.n(1, 0, 3)); while (n--) { simtime(0.01); q.bin(k, 5, 4, 3, false); if (!q.bad(5)) q.un(12, 4, 5); else q.un(0, 3, 3); } break; }
        default: break;
    }
}
void gen35(Rng& r, Plan& p) {
    p.add("dirt", {double(r.below(5)), double(r.next() >> 20)}); int n = r.range(30, 200);
    auto val = [&]() -> double { double c = r.uni(); if (c < 0.25) return r.uni(-10, 10); if (c < 0.4) return r.uni(-32768, 32768); if (c < 0.55) { double v = r.logu(1e-5, 32767.9); return r.chance(0.5) ? v : -v; } if (c < 0.7) { double v = 32767.99999 - r.uni(0, 1.2); return r.chance(0.5) ? v : -v; } if (c < 0.85) return double(r.range(-20, 20)) + (r.chance(0.5) ? 0 : r.chance(0.5) ? 0.5 : r.uni(-1, 1) * LSB * 2); if (c < 0.95) return double(r.range(-3, 3)) * LSB; return std::sqrt(32768.0) * (r.chance(0.5) ? 1 : -1) + r.uni(-0.01, 0.01); };
    auto reg = [&] { return double(r.below(NFP)); };
    for (int i = 0; i < NFP; ++i) if (r.chance(0.8)) p.add("set", {double(i), double(r.below(7)), val()});
    while (n--) {
        double c = r.uni();
        if (c < 0.2) p.add("set", {reg(), double(r.below(7)), val()}); else if (c < 0.27) p.add("raw", {reg(), r.chance(0.5) ? double(r.range(-5, 5)) * 32768 + double(r.range(-2, 2)) : (r.chance(0.5) ? 1 : -1) * (2147483647.0 - double(r.below(70000)))});
        else if (c < 0.6) p.add("bin", {double(r.below(4)), reg(), reg(), reg(), double(r.below(2))}); else if (c < 0.8) p.add("un", {double(r.below(14)), reg(), reg()}); else if (c < 0.92) p.add("ask", {reg(), reg(), double(r.range(-2, 8))});
        else if (c < 0.96) { p.add("set", {3, 2, r.uni(0, 1)}); p.add("filt", {double(r.range(1, 60)), double(r.next() >> 16), double(r.below(SIG_KINDS)), r.logu(0.01, 20000)}); }
        else { p.add("set", {3, 2, r.chance(0.5) ? r.uni(-3, 3) : val()}); p.add("acc", {double(r.range(1, 100)), double(r.below(4))}); }
    }
}
Reg r35("P35", gen35, exec35);
} // namespace
