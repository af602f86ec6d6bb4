// Signal-path scenarios: P10 delays, P12/P13 LTI systems, P14 recursive smoothers, P15 windows, P16 outliers, P17 RMS, P25 numerical states.
#include "models.hpp"
#include <qlibs.h>
#include <memory>
using namespace sim;
using namespace qlibs;

namespace {
const integrationMethod IM[4] = {INTEGRATION_RECTANGULAR, INTEGRATION_TRAPEZOIDAL, INTEGRATION_SIMPSON, INTEGRATION_QUADRATIC};
const derivationMethod DM[3] = {DERIVATION_2POINTS, DERIVATION_BACKWARD, DERIVATION_FORWARD};

// ------------------------------------------------------------------ a filter under test and its reference
struct Unit {
    bool ready = false, poisoned = false; uint32_t fam = 0;
    virtual ~Unit() {}
    virtual void setup(const Step& s) = 0;            // configuration step of this filter
    virtual void reset() = 0;
    virtual void feed(float x) = 0;
    virtual void param(const Step&) {}
};
std::vector<float> fset(const Step& s, size_t from, size_t n, double lo, double hi, double def) { std::vector<float> v; for (size_t i = 0; i < n; ++i) v.push_back(s.r(from + i, lo, hi, def)); return v; }

// array-reference overloads: f gets the size as a type when it is one of these, otherwise the pointer interface is used
template <size_t V> struct Size { static constexpr size_t v = V; };
template <class F> bool sized(size_t n, F f) {
    switch (n) { case 1: f(Size<1>()); return true; case 2: f(Size<2>()); return true; case 3: f(Size<3>()); return true; case 4: f(Size<4>()); return true; case 5: f(Size<5>()); return true; case 6: f(Size<6>()); return true; case 7: f(Size<7>()); return true; case 8: f(Size<8>()); return true; case 12: f(Size<12>()); return true; case 33: f(Size<33>()); return true; default: return false; }
}
template <class Z, class E> E (&ref(E* p, Z))[Z::v] { return *reinterpret_cast<E (*)[Z::v]>(p); }
inline bool viaRef(const Step& s) { return !s.a.empty() && s.n(s.a.size() - 1, 0, 1) == 1; }

// samples as a faulty sensor delivers them
void feedStep(Unit& u, const Step& s, double maxAmp) {
    switch (s.h) {
        case H("s"): { float v = s.r(0, -maxAmp, maxAmp, 0); u.feed(v); break; }
        case H("b"): {
            Signal g(uint64_t(s.arg(2)), int(s.n(1, 0, SIG_KINDS - 1)), s.r(3, -maxAmp, maxAmp, 1), s.r(4, -maxAmp, maxAmp, 0), double(s.n(5, 1, 100000, 1)));
            long n = s.n(0, 0, 200000); int fk = int(s.n(6, 0, 6)); Rng r(uint64_t(s.arg(2)) ^ 77); double hold = 0;
            for (long i = 0; i < n; ++i) {
                double v = g.next();
                if (fk && r.chance(0.08)) switch (fk) {
                    case 1: fault(F_DROP_HOLD); v = hold; break;
                    case 2: fault(F_DROP_ZERO); v = 0; break;
                    case 3: fault(F_SPIKE); v = s.r(3, -maxAmp, maxAmp, 1) * 30 * r.sgn(); break;
                    case 4: fault(F_DUP); u.feed(float(v)); break;
                    case 5: fault(F_MISSED); hold = v; continue;
                    case 6: fault(F_SIGN); v = -v; break;
                }
                hold = v;
                if (v > maxAmp) v = maxAmp; if (v < -maxAmp) v = -maxAmp;
                u.feed(float(v));
            }
            break;
        }
        case H("bad"): { static const float B[] = {NAN, INFINITY, -INFINITY}; int k = int(s.n(0, 0, 2)); fault(k ? F_INF : F_NAN); u.feed(B[k]); break; }
        case H("den"): fault(F_DENORM); u.feed(float(s.n(0, -100, 100) * 1e-42)); break;
        case H("reset"): if (u.ready) { fault(F_RESET); u.reset(); } break;
        case H("par"): u.param(s); break;
        default: break;
    }
}
double wideAmp(Rng& r) { return r.chance(0.15) ? r.logu(1e-8, 1e9) : r.logu(1e-2, 1e4); }
void genFeed(Rng& r, Plan& p, int n, double amp, bool longRuns, bool bad, double pReset = 0.1) {
    double base = r.chance(0.5) ? 0 : r.uni(-3, 3) * amp; bool flt = r.chance(0.6);
    for (int i = 0; i < n; ++i) {
        double c = r.uni();
        if (c < 0.35) { int k = r.range(1, 6); while (k--) p.add("s", {base + r.uni(-1, 1) * amp}); }
        else if (c < 0.80) p.add("b", {double(longRuns && r.chance(0.02) ? r.range(1000, 20000) : r.range(2, 150)), double(r.below(SIG_KINDS)), double(r.next() >> 16), amp * r.logu(0.01, 1), base, double(r.range(1, 40)), flt ? double(r.below(7)) : 0});
        else if (c < 0.80 + pReset) p.add("reset");
        else if (c < 0.94 && bad) { p.add("bad", {double(r.below(3))}); if (r.chance(0.5)) { int k = r.range(1, 3); while (k--) p.add("s", {r.uni(-1, 1) * amp}); } if (r.chance(0.8)) p.add("reset"); }
        else if (c < 0.96) p.add("den", {double(r.range(-50, 50))});
        else if (c < 0.98) { fault(F_LEVEL); base = r.uni(-5, 5) * amp; }
    }
}

// ------------------------------------------------------------------ P14 recursive smoothers
template <template <class> class M, class S> struct Rec : Unit {
    S* f = nullptr; Tri<M> o; const char* key; double lo = 1e30, hi = -1e30; bool avg; uint64_t k = 0; double rtol = 1e-5;
    Rec(const char* key_, bool avg_) : key(key_), avg(avg_) {}
    void forget(double g) { rtol = 1e-5 + 2.4e-7 / g; }       // rounding of one step lives on for about 1/g steps
    void begin() { ready = true; poisoned = false; lo = 1e30; hi = -1e30; o.revive(); o.each([](auto& m) { m.reset(); }); }
    void reset() override { if (!f->reset()) fail("filter.config", "%s: reset failed", key); lib(); begin(); }
    void feed(float x) override {
        if (!ready) return;
        float y = f->smooth(x); lib(); simtime(0.01); observe(y); ++k;
        if (!std::isfinite(x)) poisoned = true;
        if (poisoned) return;
        lo = std::min(lo, double(x)); hi = std::max(hi, double(x));
        o.step(y, key, "filtered sample", [&](auto& m) { return m.step(x); });
        double tol = rtol * std::max(std::fabs(lo), std::fabs(hi)) + 1e-37;
        if (avg && !(y >= lo - tol && y <= hi + tol)) fail("filter.range", "%s: output %.9g leaves the range [%.9g, %.9g] of the samples", key, double(y), lo, hi);
        cover(fam, uint64_t(bucket(y)), uint64_t(bucket(x)), uint64_t(k < 3 ? k : 3) + (y > x ? 8 : 0));
    }
};
struct ULpf1 : Rec<Lpf1M, smootherLPF1> { ULpf1() : Rec("lpf1", true) { fam = 300; }
    void setup(const Step& s) override { float a = s.r(1, 1e-4, 0.9999, 0.9); bool def = viaRef(s); if (def) a = 0.9f; if (!f) f = make<smootherLPF1>(); lib(); if (!(def ? f->setup() : f->setup(a))) fail("filter.config", "lpf1: %g rejected", double(a)); forget(1 - double(a)); o.each([&](auto& m) { m.a = decltype(m.a)(a); }); begin(); } };
struct ULpf2 : Rec<Lpf2M, smootherLPF2> { ULpf2() : Rec("lpf2", false) { fam = 301; }
    void setup(const Step& s) override { float a = s.r(1, 1e-3, 0.999, 0.9); bool def = viaRef(s); if (def) a = 0.9f; if (!f) f = make<smootherLPF2>(); lib(); if (!(def ? f->setup() : f->setup(a))) fail("filter.config", "lpf2: %g rejected", double(a)); o.each([&](auto& m) { m.set(a); }); begin(); } };
struct UExpw : Rec<ExpwM, smootherEXPW> { UExpw() : Rec("expw", true) { fam = 302; }
    void setup(const Step& s) override { float a = s.r(1, 1e-4, 0.9999, 0.8); bool def = viaRef(s); if (def) a = 0.8f; if (!f) f = make<smootherEXPW>(); lib(); if (!(def ? f->setup() : f->setup(a))) fail("filter.config", "expw: %g rejected", double(a)); forget(1 - double(a)); o.each([&](auto& m) { m.l = decltype(m.l)(a); }); begin(); } };
struct UKlmn : Rec<KlmnM, smootherKLMN> { UKlmn() : Rec("klmn", true) { fam = 303; }
    void setup(const Step& s) override { float q = s.r(1, 1e-12, 1e8, 1), r = s.r(2, 1e-12, 1e8, 1), p0 = s.r(3, 1e-12, 1e8, 1); if (!f) f = make<smootherKLMN>(); lib(); if (!f->setup(q, r, p0)) fail("filter.config", "klmn rejected"); forget(std::min(0.5, std::sqrt(double(q) / r))); o.each([&](auto& m) { using T = decltype(m.q); m.q = T(q); m.r = T(r); m.p0 = T(p0); m.p = T(p0); }); begin(); } };
struct UDesf : Rec<DesfM, smootherDESF> { UDesf() : Rec("desf", false) { fam = 304; }
    void setup(const Step& s) override { float a = s.r(1, 1e-3, 0.999, 0.5), b = s.r(2, 1e-3, 0.999, 0.5); long n = s.n(3, 0, 1000, 1); if (!f) f = make<smootherDESF>(); lib(); if (!f->setup(a, b, size_t(n))) fail("filter.config", "desf rejected"); o.each([&](auto& m) { using T = decltype(m.a); m.a = T(a); m.b = T(b); m.n = T(double(n)); }); begin(); } };
// ------------------------------------------------------------------ P15 windows
template <class R> struct Win : R { using R::R; float* w = nullptr; size_t n = 1;
    void window(const Step& s) { n = size_t(s.n(1, 1, 3000, 4)); w = arr<float>(n); this->rtol = 1e-5 + 2e-7 * double(n); } };
struct UMwm1 : Win<Rec<MeanM, smootherMWM1>> { size_t clean = 0;
    UMwm1() : Win("mwm1", true) { fam = 310; }
    void setup(const Step& s) override { window(s); if (!f) f = make<smootherMWM1>(); lib(); bool ok = false; if (!viaRef(s) || !sized(n, [&](auto z) { ok = f->setup(ref(w, z)); })) ok = f->setup(w, n); if (!ok) fail("filter.config", "mwm1 rejected"); o.each([&](auto& m) { m.n = n; }); begin(); }
    // finite memory: a bad sample is forgotten once it has left the window
    void feed(float x) override {
        if (ready && !std::isfinite(x)) { f->smooth(x); lib(); poisoned = true; clean = 0; return; }
        if (ready && poisoned) { float y = f->smooth(x); lib(); observe(y); hist.push_back(x); if (++clean >= n) { double m = 0, a = 0; for (size_t i = hist.size() - n; i < hist.size(); ++i) { m += hist[i]; a += std::fabs(hist[i]); } m /= double(n); a /= double(n); sh->compares++; if (!(std::fabs(y - m) <= 1e-6 * (4 + double(n) * 0.1) * a + 1e-37)) fail("window.memory", "mwm1: %zu samples after an invalid one the output is %.9g, the window mean %.9g", clean, double(y), m); } return; }
        hist.clear(); Win::feed(x);
    }
    std::vector<float> hist;
};
struct UMwm2 : Win<Rec<MeanM, smootherMWM2>> { UMwm2() : Win("mwm2", false) { fam = 311; o.each([](auto& m) { m.running = true; }); }
    void setup(const Step& s) override { window(s); if (!f) f = make<smootherMWM2>(); lib(); bool ok = false; if (!viaRef(s) || !sized(n, [&](auto z) { ok = f->setup(ref(w, z)); })) ok = f->setup(w, n); if (!ok) fail("filter.config", "mwm2 rejected"); o.each([&](auto& m) { m.n = n; }); begin(); } };
struct UGmwf : Win<Rec<GmwfM, smootherGMWF>> { UGmwf() : Win("gmwf", true) { fam = 312; }
    void setup(const Step& s) override { window(s); if (n > 200) n = 200; float sg = s.r(2, 0.2, 100, 1), c = s.r(3, -5, double(n) - 0.5, 1); if (c < -3 * sg) c = 0; float* k = arr<float>(n); if (!f) f = make<smootherGMWF>(); lib(); bool ok = false; if (!viaRef(s) || !sized(n, [&](auto z) { ok = f->setup(sg, c, ref(w, z), ref(k, z)); })) ok = f->setup(sg, c, w, k, n); if (!ok) fail("filter.config", "gmwf rejected"); o.each([&](auto& m) { m.set(sg, c, n); }); begin(); } };
struct UAlnf : Win<Rec<AlnfM, smootherALNF>> { UAlnf() : Win("alnf", false) { fam = 313; o.K = 150; }
    void setup(const Step& s) override { window(s); if (n > 64) n = 64; float a = s.r(2, 1e-12, 0.999, 0.01), mu = s.r(3, 0, 0.999, 0); float *q = arr<float>(n), *v = arr<float>(n); bool momentum = mu > 0 && s.n(4, 0, 3); if (!f) f = make<smootherALNF>(); lib(); bool ok = false; if (!viaRef(s) || !sized(n, [&](auto z) { if (momentum) ok = f->setup(a, mu, ref(w, z), ref(q, z), ref(v, z)); else { mu = 0; ok = f->setup(a, ref(w, z), ref(q, z)); } })) ok = f->setup(a, mu, n, w, q, momentum ? v : nullptr); if (!ok) fail("filter.config", "alnf rejected (alpha %g, mu %g)", double(a), double(mu)); o.each([&](auto& m) { using T = decltype(m.al); m.n = n; m.al = T(a); m.mu = T(momentum ? mu : 0.0f); }); begin(); } };
// ------------------------------------------------------------------ P16 outliers
template <class S, bool RUN> struct UMor : Win<Rec<MorM, S>> { using B = Win<Rec<MorM, S>>; UMor() : B(RUN ? "mor2" : "mor1", false) { this->fam = RUN ? 321 : 320; this->o.each([](auto& m) { m.running = RUN; }); }
    void setup(const Step& s) override { this->window(s); float a = s.r(2, 1e-4, 0.9999, 0.5); if (!this->f) this->f = make<S>(); lib(); bool ok = false, def = s.n(3, 0, 3) == 3; if (def) a = 0.9f; if (!viaRef(s) || !sized(this->n, [&](auto z) { ok = def ? this->f->setup(ref(this->w, z)) : this->f->setup(ref(this->w, z), a); })) ok = def ? this->f->setup(this->w, this->n) : this->f->setup(this->w, this->n, a); if (!ok) fail("filter.config", "%s rejected", this->key); this->o.each([&](auto& m) { m.n = this->n; m.al = decltype(m.al)(a); }); this->begin(); }
    void feed(float x) override { B::feed(x); if (this->ready && !this->o.dead) cover(this->fam + 50, this->o.d.outlier, this->o.d.outlier ? uint64_t(bucket(x)) : 0, this->n < 40 ? this->n : 40); } };
// ------------------------------------------------------------------ P17 RMS
struct URms : Unit { rms* f = nullptr; rms* g = nullptr; Tri<RmsM> o; size_t n = 1; float sc = 1; uint64_t k = 0; double amax = 0;
    URms() { fam = 330; }
    void setup(const Step& s) override { n = size_t(s.n(1, 1, 2000, 4)); sc = s.n(2, 0, 1) ? -2.0f : -1.0f; if (!f) { f = make<rms>(); g = make<rms>(); } lib(2); float *w1 = arr<float>(n), *w2 = arr<float>(n); bool o1 = false, o2 = false; if (!viaRef(s) || !sized(n, [&](auto z) { o1 = f->setup(ref(w1, z)); })) o1 = f->setup(w1, n); o2 = g->setup(w2, n); if (!o1 || !o2) fail("filter.config", "rms rejected"); o.each([&](auto& m) { m.set(n); }); o.revive(); ready = true; poisoned = false; amax = 0; }
    void reset() override { Step s{"setup", 0, {0, double(n), sc == -2.0f ? 1.0 : 0.0, 0}}; setup(s); }
    void param(const Step& s) override { if (!ready) return; float l = s.r(0, 1e-4, 1, 0.99), a = s.r(1, 1e-4, 1, 0.75); lib(2); fault(F_RECONF); if (!f->setParams(l, a) || !g->setParams(l, a)) fail("filter.config", "rms parameters rejected"); o.each([&](auto& m) { using T = decltype(m.e.l); m.e.l = T(l); m.l.a = T(a); }); }
    void feed(float x) override {
        if (!ready) return;
        float y = f->update(x), z = g->update(sc * x); lib(2); simtime(0.001); observe(y); ++k;
        if (!std::isfinite(x)) poisoned = true;
        if (poisoned) return;
        amax = std::max(amax, std::fabs(double(x)));
        if (!(y >= -1e-6 * (1 + 0.1 * double(n)) * amax - 3 * o.linAcc - 1e-15)) fail("rms.negative", "estimate %.9g", double(y));
        // sign does not matter, amplitude scales (powers of two are exact; tiny magnitudes underflow)
        if (amax > 1e-10 && std::fabs(double(z) - std::fabs(double(sc)) * double(y)) > 1e-5 * std::fabs(double(z)) + 1e-12 * amax) fail("rms.scale", "estimate of %g times the signal is %.9g instead of %.9g", double(sc), double(z), std::fabs(double(sc)) * double(y));
        if (amax > 0 && y > amax * 1.0001 + 3 * o.linAcc) fail("rms.range", "estimate %.9g above the largest sample %.9g", double(y), amax);
        if (std::fabs(x) > 1e-15 || x == 0) o.step(y, "rms.law", "estimate", [&](auto& m) { return m.step(x); });
        else { o.each([&](auto& m) { m.step(x); }); }
        cover(fam, uint64_t(bucket(y)), uint64_t(bucket(x)), n < 10 ? n : 10);
    } };
Unit* unit(int fam, const Step& s) {
    switch (fam) {
        case 14: switch (s.n(0, 0, 4)) { case 0: return new ULpf1; case 1: return new ULpf2; case 2: return new UExpw; case 3: return new UKlmn; default: return new UDesf; }
        case 15: switch (s.n(0, 0, 3)) { case 0: return new UMwm1; case 1: return new UMwm2; case 2: return new UGmwf; default: return new UAlnf; }
        case 16: if (s.n(0, 0, 1)) return new UMor<smootherMOR2, true>; return new UMor<smootherMOR1, false>;
        default: return new URms;
    }
}
void execFilt(const Plan& p, int fam) {
    std::unique_ptr<Unit> u; double maxAmp = 1e6; int kind = -1;
    for (auto& s : p.s) {
        if (s.h == H("dirt")) { setDirt(int(s.n(0, 0, 4)), uint64_t(s.arg(1))); continue; }
        if (s.h == H("setup")) { int k = int(s.n(0, 0, 4)); if (!u || k != kind) u.reset(unit(fam, s)); else fault(F_RECONF); kind = k; u->setup(s); continue; }
        if (!u) continue;
        if (s.h == H("steady")) {
            // steady periodic signal: the RMS estimate converges to its true value
            if (fam != 17) continue; long per = s.n(0, 3, 60, 10); double A = s.r(1, 0.1, 1000, 1), B = s.r(2, -1000, 1000, 0); auto* q = static_cast<URms*>(u.get()); q->reset(); q->n = q->n;
            long n = 3000 + 6 * long(q->n) + 200 * per; double ms = 0; for (long i = 0; i < per; ++i) { double v = A * std::sin(6.283185307179586 * double(i) / double(per)) + B; ms += v * v; } double want = std::sqrt(ms / double(per)), acc = 0; long m = 0;
            for (long i = 0; i < n; ++i) { double v = A * std::sin(6.283185307179586 * double(i) / double(per)) + B; float y = q->f->update(float(v)); lib(); simtime(0.001); if (i >= n - 10 * per) { acc += y; ++m; } }
            acc /= double(m); sh->compares++; cover(339, uint64_t(per));
            if (std::fabs(acc - want) > 0.06 * want) fail("rms.converge", "steady signal with period %ld: mean estimate %.6g, true RMS %.6g", per, acc, want);
            q->reset(); continue;
        }
        if (s.h == H("const")) {
            // a constant signal passes unchanged
            if (fam == 17) continue; float v = s.r(0, -1e5, 1e5, 1); u->reset(); long n = s.n(1, 1, 500, 50); for (long i = 0; i < n; ++i) u->feed(v); continue;
        }
        feedStep(*u, s, maxAmp);
    }
}
void genFilt(Rng& r, Plan& p, int fam) {
    p.add("dirt", {double(r.below(5)), double(r.next() >> 20)});
    int kind = int(r.below(5)); double amp = wideAmp(r); int reps = r.range(1, 3);
    auto size = [&] { double c = r.uni(); return double(c < 0.15 ? 1 : c < 0.6 ? r.range(2, 10) : c < 0.95 ? r.range(11, 80) : r.range(81, 1500)); };
    auto unit = [&] { double c = r.uni(); return c < 0.8 ? r.uni(0.001, 0.999) : c < 0.9 ? r.logu(1e-4, 1e-2) : 1 - r.logu(1e-4, 1e-2); };      // open interval (0,1), its ends included often
    for (int q = 0; q < reps; ++q) {
        if (r.chance(0.2)) kind = int(r.below(5));
        switch (fam) {
            case 14: if (kind == 3) { double sc = r.chance(0.3) ? r.logu(1e-8, 1e4) : 1; p.add("setup", {3, sc * r.logu(1e-4, 1e4), sc * r.logu(1e-4, 1e4), sc * r.logu(1e-4, 1e4)}); } else p.add("setup", {double(kind), unit(), unit(), double(r.chance(0.2) ? r.range(21, 1000) : r.range(0, 20)), double(r.chance(0.1))}); break;
            case 15: p.add("setup", {double(kind % 4), size(), kind % 4 == 2 ? r.logu(0.3, 30) : r.chance(0.05) ? unit() : r.logu(1e-3, 1.0) / (40 * amp * amp), kind % 4 == 2 ? (r.chance(0.2) ? r.uni(-5, 0) : r.chance(0.3) ? double(r.range(0, 8)) : r.uni(0, 40)) : (r.chance(0.3) ? 0 : r.chance(0.2) ? r.logu(1e-3, 0.05) : r.uni(0.05, 0.9)), double(r.below(4)), double(r.below(2))}); break;
            case 16: p.add("setup", {double(kind % 2), size(), r.chance(0.7) ? r.uni(0.02, 0.98) : unit(), double(r.below(4)), double(r.below(2))}); break;
            default: p.add("setup", {0, size(), double(r.below(2)), double(r.below(2))}); if (r.chance(0.4)) p.add("par", {r.chance(0.2) ? unit() : r.uni(0.5, 1), r.chance(0.2) ? unit() : r.uni(0.1, 1)}); break;
        }
        double pr = fam == 16 ? 0.12 : 0.06;
        if (fam == 16) {
            // positive level with spike bursts: the case the filters exist for
            int n = r.range(3, 30); double lvl = amp * r.sgn();
            for (int i = 0; i < n; ++i) { double c = r.uni(); if (c < 0.6) p.add("b", {double(r.range(5, 120)), double(SIG_NOISE), double(r.next() >> 16), lvl * r.uni(0.001, 0.3), lvl, 1, r.chance(0.5) ? 3.0 : double(r.below(7))}); else if (c < 0.8) { int k = r.range(1, 12); while (k--) p.add("s", {lvl * r.uni(2, 50) * r.sgn()}); } else if (c < 0.9) { lvl = amp * r.uni(0.1, 3) * r.sgn(); } else p.add("reset"); }
        }
        genFeed(r, p, r.range(3, 40), amp, true, r.chance(0.3), pr);
        if (fam == 17) { int k = r.range(0, 5); while (k--) { p.add("par", {r.chance(0.15) ? 1.0 : r.chance(0.2) ? unit() : r.uni(0.1, 1), r.chance(0.15) ? 1.0 : r.chance(0.2) ? r.logu(1e-3, 0.1) : r.uni(0.05, 1)}); genFeed(r, p, r.range(1, 8), amp, true, false, 0.02); } }
        if (r.chance(0.3)) p.add("const", {r.uni(-1, 1) * amp, double(r.range(1, 200))});
        if (fam == 17 && r.chance(0.1)) p.add("steady", {double(r.range(3, 40)), r.logu(0.1, 100), r.chance(0.5) ? 0 : r.uni(-100, 100)});
    }
}
Reg r14("P14", [](Rng& r, Plan& p) { genFilt(r, p, 14); }, [](const Plan& p) { execFilt(p, 14); });
Reg r15("P15", [](Rng& r, Plan& p) { genFilt(r, p, 15); }, [](const Plan& p) { execFilt(p, 15); });
Reg r16("P16", [](Rng& r, Plan& p) { genFilt(r, p, 16); }, [](const Plan& p) { execFilt(p, 16); });
Reg r17("P17", [](Rng& r, Plan& p) { genFilt(r, p, 17); }, [](const Plan& p) { execFilt(p, 17); });

// ------------------------------------------------------------------ P10 delay lines
struct Bits { static bool eq(float a, float b) { return memcmp(&a, &b, 4) == 0; } };
struct DelayLine {                                        // model: the last n samples
    std::vector<float> w; size_t h = 0;
    void set(size_t n, float v) { w.assign(n, v); h = 0; }
    void push(float v) { h = (h + w.size() - 1) % w.size(); w[h] = v; }
    float at(size_t i) const { return w[(h + i) % w.size()]; }
    float oldest() const { return at(w.size() - 1); }
};
struct AnyDelay { virtual ~AnyDelay() {} virtual float operator()(float) = 0; };
template <size_t N> struct TD : AnyDelay { transportDelay<N>* d; TD(float v) { d = v == 0 ? make<transportDelay<N>>() : make<discreteDelay<N>>(v); } float operator()(float x) override { return (*d)(x); } };
const size_t TDN[] = {1, 2, 3, 4, 5, 8, 16, 33, 64, 257};
AnyDelay* newTD(int k, float v) { switch (k) { case 0: return new TD<1>(v); case 1: return new TD<2>(v); case 2: return new TD<3>(v); case 3: return new TD<4>(v); case 4: return new TD<5>(v); case 5: return new TD<8>(v); case 6: return new TD<16>(v); case 7: return new TD<33>(v); case 8: return new TD<64>(v); default: return new TD<257>(v); } }
void genDelay(Rng& r, Plan& p) {
    p.add("dirt", {double(r.below(5)), double(r.next() >> 20)});
    int reps = r.range(1, 4);
    for (int q = 0; q < reps; ++q) {
        double c = r.uni(), n = c < 0.15 ? 1 : c < 0.4 ? 2 + r.below(3) : c < 0.8 ? r.range(5, 40) : c < 0.98 ? r.range(41, 600) : r.range(601, 70000);
        p.add("tdl", {n, r.chance(0.3) ? 0 : r.uni(-100, 100), double(r.below(3)), double(r.chance(0.6) ? r.below(4) : 1)});
        int m = r.range(3, 60);
        for (int i = 0; i < m; ++i) {
            double d = r.uni();
            if (d < 0.45) p.add("ins", {r.uni(-1e3, 1e3), double(r.below(2))});
            else if (d < 0.6) p.add("insn", {double(r.range(1, int(std::min(3 * n + 3, 3000.0)))), double(r.next() >> 16), double(r.below(3))});
            else if (d < 0.8) p.add("read", {std::floor(r.uni(-4, n + 4))});
            else if (d < 0.85) p.add("flush", {r.uni(-10, 10), double(r.chance(0.2))});
            else if (d < 0.9) p.add("all");
            else if (d < 0.93) p.add("odd", {double(r.below(5))});
            else p.add("td", {double(r.below(10)), r.chance(0.2) ? 0 : r.uni(-5, 5), double(r.range(1, 700)), double(r.next() >> 16)});
        }
        if (r.chance(0.5)) { int k = r.range(1, 4); p.add("ltid", {double(r.below(2)), double(r.range(1, 30)), r.uni(-2, 2), double(r.next() >> 16)}); while (k--) { p.add("ltir", {double(r.range(5, 200)), double(r.next() >> 16)}); if (r.chance(0.4)) p.add("ltid2", {double(r.range(1, 30)), r.chance(0.2) ? 0 : r.uni(-2, 2)}); } }
        if (r.chance(0.3)) p.add("dft", {r.logu(0.01, 100), r.logu(0.001, 1)});
    }
}
void execDelay(const Plan& p) {
    tdl* t = nullptr; DelayLine m; const char* K = "delay";
    ltisys *la = nullptr, *lb = nullptr; DelayLine lm; bool haveD = false;
    auto val1 = [&](float got, float want, const char* what, long i) { observe(got); sh->compares++; if (!Bits::eq(got, want)) fail(K, "%zu-tap line, %s %ld: got %.9g, expected %.9g", m.w.size(), what, i, double(got), double(want)); };
    auto idx = [&](long i) {
        lib(); float got = (*t)[int(i)];
        if (i == -1) val1(got, m.oldest(), "index", i);
        else if (i >= 0 && i < long(m.w.size())) { val1(got, m.at(size_t(i)), "index", i); val1(t->getAtIndex(size_t(i)), m.at(size_t(i)), "getAtIndex", i); lib(); }
        else { observe(uint64_t(got != got)); if (got == got) fail("delay.undefined", "%zu-tap line, index %ld outside: got %.9g instead of the undefined marker", m.w.size(), i, double(got)); }
    };
    auto ends = [&] { lib(2); val1(t->getOldest(), m.oldest(), "oldest", 0); val1(t->getRecent(), m.at(0), "most recent", 0); };
    for (auto& s : p.s) {
        switch (s.h) {
            case H("dirt"): setDirt(int(s.n(0, 0, 4)), uint64_t(s.arg(1))); break;
            case H("tdl"): { size_t n = size_t(s.n(0, 1, 100000, 4)); float v = s.f(1); float* a = arr<float>(n); lib(); int how = int(s.n(2, 0, 2)); if (how == 0 || !t) t = make<tdl>(); else fault(F_RECONF); int via = int(s.n(3, 0, 3)); if (via & 2) v = 0; // array-reference overloads, default initial value
                bool done = (via & 1) && sized(n, [&](auto z) { auto& A = ref(a, z); if (how != 1) { if (via & 2) t->setup(A); else t->setup(A, v); } else t = (via & 2) ? make<tdl>(A) : make<tdl>(A, v); });
                if (!done) { if (how != 1) { if (via & 2) t->setup(a, n); else t->setup(a, n, v); } else t = (via & 2) ? make<tdl>(a, n) : make<tdl>(a, n, v); } m.set(n, v); if (!t->isInitialized()) fail("delay.init", "not initialised after set-up"); ends(); idx(-1); idx(long(n) - 1); break; }
            case H("ins"): if (!t) break; { float v = s.f(0); if (s.n(1, 0, 1)) (*t)(v); else t->insertSample(v); lib(); m.push(v); ends(); cover(400, m.w.size() < 50 ? m.w.size() : 50, m.h < 50 ? m.h : 50); } break;
            case H("insn"): { if (!t) break; long n = s.n(0, 0, 200000); Rng r(uint64_t(s.arg(1))); int fk = int(s.n(2, 0, 2)); float v = 0; for (long i = 0; i < n; ++i) { if (fk == 1 && r.chance(0.1)) { fault(F_DUP); } else v = float(r.uni(-1e3, 1e3)); if (fk == 2 && r.chance(0.1)) { fault(F_MISSED); continue; } t->insertSample(v); lib(); m.push(v); if ((i & 7) == 0 || i < 8) { ends(); idx(long(r.below(uint32_t(m.w.size())))); } } cover(401, m.w.size() < 300 ? m.w.size() : 300, m.h < 300 ? m.h : 300); break; }
            case H("read"): if (t) idx(s.n(0, -10, 200000)); break;
            case H("odd"): if (t) { static const long O[] = {-2, -2147483647L, 2147483647L, -100, 1000000}; idx(O[s.n(0, 0, 4)]); } break;
            case H("all"): if (t) { for (size_t i = 0; i < m.w.size() && i < 3000; ++i) idx(long(i)); idx(-1); idx(long(m.w.size())); } break;
            case H("flush"): if (t) { float v = s.f(0); bool def = s.n(1, 0, 1); if (def) { v = 0; t->flush(); } else t->flush(v); lib(); fault(F_RESET); m.set(m.w.size(), v); ends(); idx(long(m.w.size()) / 2); } break;
            case H("td"): { int k = int(s.n(0, 0, 9)); float v = s.f(1); std::unique_ptr<AnyDelay> d(newTD(k, v)); std::vector<float> in; Rng r(uint64_t(s.arg(3))); long n = s.n(2, 0, 3000); size_t N = TDN[k]; float last = 0;
                for (long i = 0; i < n; ++i) { float x = r.chance(0.05) ? (fault(F_STUCK), last) : float(r.uni(-1e3, 1e3)); last = x; in.push_back(x); float y = (*d)(x); lib(); observe(y); float want = in.size() > N ? in[in.size() - 1 - N] : v; sh->compares++; if (!Bits::eq(y, want)) fail("delay.transport", "transport delay of %zu: call %ld returned %.9g, expected %.9g", N, i, double(y), double(want)); }
                cover(402, uint64_t(k), uint64_t(n > long(N))); break; }
            case H("ltid"): {
                // a system with an input delay, and its twin without one fed with delayed inputs
                bool cont = s.n(0, 0, 1); size_t nD = size_t(s.n(1, 1, 2000, 3)); float iv = s.f(2); Rng r(uint64_t(s.arg(3)));
                for (int q = 0; q < 2; ++q) {
                    float* num = arr<float>(3); float* den = arr<float>(3); Rng rr = r; num[0] = cont ? 0 : float(rr.uni(-1, 1)); num[1] = float(rr.uni(-1, 1)); num[2] = float(rr.uni(-1, 1)); den[0] = 1; den[1] = float(cont ? rr.uni(0.5, 2) : rr.uni(-0.5, 0.5)); den[2] = float(cont ? rr.uni(0.2, 1) : rr.uni(-0.3, 0.3));
                    ltisys* L; if (cont) { nState* x = static_cast<nState*>(memGet(2 * sizeof(nState))); new (x) nState; new (x + 1) nState; L = make<continuousSystem>(num, den, x, size_t(2), 0.1f); } else L = make<discreteSystem>(num, den, arr<float>(3), size_t(3), size_t(3));
                    (q ? lb : la) = L;
                }
                if (!la->setDelay(arr<float>(nD), nD, iv)) fail("delay.config", "input delay rejected"); lib(); lm.set(nD, iv); haveD = true; break; }
            case H("ltid2"): if (la) { size_t nD = size_t(s.n(0, 1, 2000, 3)); float iv = s.f(1); bool def = iv == 0; if (!(def ? la->setDelay(arr<float>(nD), nD) : la->setDelay(arr<float>(nD), nD, iv))) fail("delay.config", "input delay rejected"); lib(); fault(F_RECONF); lm.set(nD, iv); } break;
            case H("ltir"): if (la && haveD) { long n = s.n(0, 0, 3000); Rng r(uint64_t(s.arg(1))); float u = 0; for (long i = 0; i < n; ++i) { if (r.chance(0.3)) u = float(r.uni(-10, 10)); else fault(F_DROP_HOLD); lm.push(u); float y = la->excite(u), z = lb->excite(lm.oldest()); lib(2); observe(y); sh->compares++; if (!Bits::eq(y, z)) fail("delay.lti", "system with %zu-tap input delay gives %.9g, undelayed twin with shifted input %.9g", lm.w.size(), double(y), double(z)); } cover(403, lm.w.size() < 40 ? lm.w.size() : 40, uint64_t(la->getType())); } break;
            case H("dft"): { float T = s.r(0, 1e-3, 1e3, 1), dt = s.r(1, 1e-3, 10, 1); size_t N = delayFromTime(T, dt); lib(); observe(uint64_t(N)); if (std::fabs(double(N) * dt - T) > 0.5001 * dt + 1e-5 * T) fail("delay.time", "%g s at %g s per step is %zu steps", double(T), double(dt), N); break; }
            default: break;
        }
    }
}
Reg r10("P10", genDelay, execDelay);

// ------------------------------------------------------------------ P12 discrete systems
struct UDisc : Unit {
    discreteSystem* f = nullptr; float* xs = nullptr; size_t xn = 0; Tri<DiscM> o; uint64_t k = 0; std::vector<float> num, den; float lo = 0, hi = 0; bool lim = false;
    void setup(const Step& s) override {
        size_t nb = size_t(s.n(0, 1, 40, 1)), na = size_t(s.n(1, 1, 40, 1)); num = fset(s, 3, nb, -1e4, 1e4, 0); den = fset(s, 3 + nb, na, -1e4, 1e4, 0); if (std::fabs(den[0]) < 1e-3f) den[0] = 1;
        float *b = arr<float>(nb), *a = arr<float>(na); bool again = f && s.n(2, 0, 11) >= 6 && xn == std::max(na, nb); if (!again) xs = arr<float>(xn = std::max(na, nb)); float* x = xs; memcpy(b, num.data(), nb * 4); memcpy(a, den.data(), na * 4); lib();
        bool fresh = !f || (s.n(2, 0, 11) & 1), ok = true; long via = s.n(2, 0, 11) % 6 / 2;      // pointers, array references, transfer function object
        if (fresh) { o.each([](auto& m) { using T = decltype(m.y); m.lo = T(-3.4028234e38f); m.hi = T(3.4028234e38f); }); lim = false; } else fault(F_RECONF);
        if (!(via && nb <= 5 && na <= 5 && sized(nb, [&](auto zb) { sized(na, [&](auto za) {
                constexpr size_t NB = decltype(zb)::v <= 5 ? decltype(zb)::v : 1, NA = decltype(za)::v <= 5 ? decltype(za)::v : 1; auto& rb = ref(b, Size<NB>()); auto& ra = ref(a, Size<NA>());
                if (via == 1) { if (fresh) f = make<discreteSystem>(rb, ra, x); else ok = f->setup(rb, ra, x); }
                else { auto* tf = make<discreteTF<NB, NA>>(rb, ra); if (fresh) f = make<discreteSystem>(*tf); else ok = f->setup(*tf); } }); }))) {
            if (fresh) f = make<discreteSystem>(b, a, x, nb, na); else ok = f->setup(b, a, x, nb, na);
        }
        if (!ok) fail("lti.config", "set-up rejected");
        if (!f->isInitialized() || f->getType() != LTISYS_TYPE_DISCRETE) fail("lti.config", "not initialised after set-up");
        o.each([&](auto& m) { m.set(num, den); }); o.revive(); ready = true; poisoned = false; cover(410, nb, na);
    }
    void reset() override { if (!f->setInitStates()) fail("lti.config", "initial states rejected"); lib(); o.each([](auto& m) { for (auto& q : m.x) q = decltype(m.y)(0); }); o.revive(); poisoned = false; }
    void init(const Step& s) { if (!ready) return; std::vector<float> v = fset(s, 0, o.d.x.size(), -1e4, 1e4, 0); float* a = arr<float>(v.size()); memcpy(a, v.data(), v.size() * 4); if (!f->setInitStates(a)) fail("lti.config", "initial states rejected"); lib(); fault(F_RECONF); o.each([&](auto& m) { using T = decltype(m.y); for (size_t i = 0; i < v.size(); ++i) m.x[i] = T(v[i]); }); o.revive(); poisoned = false; }
    void sat(const Step& s) { if (!ready) return; float l = s.r(0, -1e6, 1e6, -1), h = s.r(1, -1e6, 1e6, 1); bool good = h > l; if (!good) fault(F_BADCFG); if (f->setSaturation(l, h) != good) fail("lti.config", "limits [%g, %g] returned %d", double(l), double(h), int(!good)); lib(); if (good) { fault(F_RECONF); lim = true; lo = l; hi = h; o.each([&](auto& m) { using T = decltype(m.y); m.lo = T(l); m.hi = T(h); }); } }
    void feed(float x) override {
        if (!ready) return; float y = f->excite(x); lib(); simtime(0.01); observe(y); ++k; if (!std::isfinite(x)) poisoned = true; if (poisoned) return;
        o.step(y, "lti.discrete", "output", [&](auto& m) { return m.step(x); });
        if (lim && !o.dead && !(y >= lo && y <= hi)) fail("lti.limits", "output %.9g outside [%.9g, %.9g]", double(y), double(lo), double(hi));
        cover(411, uint64_t(bucket(y)), uint64_t(lim && y >= hi ? 2 : lim && y <= lo ? 1 : 0), num.size() * 16 + den.size());
    }
};
std::vector<double> polyFromRoots(Rng& r, int n, bool disc, double wmax) {
    std::vector<double> c{1.0}; auto mul = [&](std::vector<double> q) { std::vector<double> o(c.size() + q.size() - 1, 0.0); for (size_t i = 0; i < c.size(); ++i) for (size_t j = 0; j < q.size(); ++j) o[i + j] += c[i] * q[j]; c = o; };
    while (n > 0) {
        if (n >= 2 && r.chance(0.5)) { if (disc) { double m = r.uni(0.05, 0.95), th = r.uni(0, 3.1416); mul({1, -2 * m * std::cos(th), m * m}); } else { double w = wmax * r.uni(0.2, 1), z = r.uni(0.3, 1); mul({1, 2 * z * w, w * w}); } n -= 2; }
        else { if (disc) mul({1, -r.uni(-0.95, 0.95)}); else mul({1, wmax * r.uni(0.2, 1)}); --n; }
    }
    return c;
}
void genDisc(Rng& r, Plan& p) {
    p.add("dirt", {double(r.below(5)), double(r.next() >> 20)});
    int reps = r.range(1, 3);
    for (int q = 0; q < reps; ++q) {
        int na = r.range(1, 7), nb = r.range(1, 7); if (r.chance(0.08)) (r.chance(0.5) ? na : nb) = r.range(8, 14); if (r.chance(0.03)) nb = r.range(15, 40); std::vector<double> d = polyFromRoots(r, na - 1, true, 1), a{double(nb), double(na), double(r.below(12))}; double sc = r.chance(0.4) ? 1 : r.logu(0.005, 500) * r.sgn();
        bool whole = r.chance(0.15); for (int i = 0; i < nb; ++i) { double v = r.uni(-2, 2) * sc; a.push_back(whole ? std::round(v) : v); } for (double v : d) a.push_back(v * sc);
        if (r.chance(0.03)) { a = {double(nb), double(na), 0}; for (int i = 0; i < nb + na; ++i) a.push_back(r.uni(-1.5, 1.5)); a[size_t(3 + nb)] = 1; }        // arbitrary, maybe unstable
        p.addv("setup", a); double amp = r.chance(0.15) ? r.logu(1e-8, 1e8) : r.logu(0.1, 1000);
        int m = r.range(1, 6);
        while (m--) {
            if (r.chance(0.35)) { double l = r.uni(-1, 1) * amp; p.add("sat", {l, l + r.uni(-0.3, 2) * amp}); }
            if (r.chance(0.3)) { std::vector<double> x; for (int i = 0, e = std::max(na, nb); i < e; ++i) x.push_back(r.uni(-1, 1) * amp); p.addv("init", x); }
            genFeed(r, p, r.range(2, 12), amp, true, r.chance(0.2), 0.06);
        }
    }
}
template <class U> void execLti(const Plan& p) {
    U u;
    for (auto& s : p.s) {
        if (s.h == H("dirt")) { setDirt(int(s.n(0, 0, 4)), uint64_t(s.arg(1))); continue; }
        if (s.h == H("setup")) { u.setup(s); continue; }
        if (s.h == H("sat")) { u.sat(s); continue; }
        if (s.h == H("init")) { u.init(s); continue; }
        if (s.h == H("meth")) { u.meth(s); continue; }
        if (s.h == H("ode")) { u.ode(s); continue; }
        feedStep(u, s, 1e6);
    }
}
struct UDisc2 : UDisc { void meth(const Step&) {} void ode(const Step&) {} };
Reg r12("P12", genDisc, [](const Plan& p) { execLti<UDisc2>(p); });

// ------------------------------------------------------------------ P13 continuous systems
struct UCont : Unit {
    continuousSystem* f = nullptr; Tri<ContM> o; std::vector<float> num, den; float lo = 0, hi = 0, dt = 1; bool lim = false; size_t n = 1; uint64_t k = 0;
    // exact reference of the differential equation (input held over a step), double precision
    std::vector<double> ex; bool odeOn = false; double top = 0, lag = 0; long since = 0;
    nState* xs = nullptr; size_t xn = 0;
    void setup(const Step& s) override {
        n = size_t(s.n(0, 1, 8, 1)); dt = s.r(1, 1e-4, 10, 0.01); num = fset(s, 3, n + 1, -1e6, 1e6, 0); den = fset(s, 4 + n, n + 1, -1e6, 1e6, 0); if (std::fabs(den[0]) < 1e-3f) den[0] = 1;
        float *b = arr<float>(n + 1), *a = arr<float>(n + 1); bool again = f && s.n(2, 0, 11) >= 6 && xn == n; if (!again) { xn = n; xs = static_cast<nState*>(memGet(n * sizeof(nState), 8)); for (size_t i = 0; i < n; ++i) new (xs + i) nState; } memcpy(b, num.data(), (n + 1) * 4); memcpy(a, den.data(), (n + 1) * 4); lib();
        bool fresh = !f || (s.n(2, 0, 11) & 1), ok = true; long via = s.n(2, 0, 11) % 6 / 2;      // pointers, array references, transfer function object
        if (fresh) { o.each([](auto& m) { using T = decltype(m.y); m.lo = T(-3.4028234e38f); m.hi = T(3.4028234e38f); }); lim = false; } else fault(F_RECONF);
        if (!(via && sized(n, [&](auto z) {
                constexpr size_t N = decltype(z)::v; auto& rb = ref(b, Size<N + 1>()); auto& ra = ref(a, Size<N + 1>());
                if (via == 1) { auto& rx = ref(xs, z); if (fresh) f = new (memGet(sizeof(continuousSystem), 8)) continuousSystem(rb, ra, rx, dt); else ok = f->setup(rb, ra, rx, dt); }
                else { auto* tf = make<continuousTF<N>>(rb, ra); if (fresh) f = make<continuousSystem>(*tf, dt); else ok = f->setup(*tf, dt); } }))) {
            if (fresh) f = make<continuousSystem>(b, a, xs, n, dt); else ok = f->setup(b, a, xs, n, dt);
        }
        if (!ok) fail("lti.config", "set-up rejected");
        if (!f->isInitialized() || f->getType() != LTISYS_TYPE_CONTINUOUS) fail("lti.config", "not initialised after set-up");
        o.each([&](auto& m) { m.set(num, den, dt); m.x.clear(); m.x.resize(n); }); o.revive(); ready = true; poisoned = false; odeOn = false; ex.assign(n, 0); top = 0; lag = 0; since = 0;
        if (again) { if (!f->setIntegrationMethod(IM[1])) fail("lti.config", "integration method rejected"); lib(); }      // the states keep the method of their previous use
        cover(420, n);
    }
    void zero(const std::vector<float>* v) { o.each([&](auto& m) { using T = decltype(m.y); for (size_t i = 0; i < n; ++i) m.x[i].init(v ? T((*v)[i]) : T(0)); }); o.revive(); poisoned = false; for (size_t i = 0; i < n; ++i) ex[i] = v ? double((*v)[i]) : 0; top = 0; lag = 0; since = 0; }
    void reset() override { if (!f->setInitStates()) fail("lti.config", "initial states rejected"); lib(); zero(nullptr); }
    void init(const Step& s) { if (!ready) return; std::vector<float> v = fset(s, 0, n, -1e5, 1e5, 0); float* a = arr<float>(n); memcpy(a, v.data(), n * 4); if (!f->setInitStates(a)) fail("lti.config", "initial states rejected"); lib(); fault(F_RECONF); zero(&v); }
    void sat(const Step& s) { if (!ready) return; float l = s.r(0, -1e6, 1e6, -1), h = s.r(1, -1e6, 1e6, 1); bool good = h > l; if (!good) fault(F_BADCFG); if (f->setSaturation(l, h) != good) fail("lti.config", "limits [%g, %g] returned %d", double(l), double(h), int(!good)); lib(); if (good) { fault(F_RECONF); lim = true; lo = l; hi = h; o.each([&](auto& m) { using T = decltype(m.y); m.lo = T(l); m.hi = T(h); }); } }
    void meth(const Step& s) { if (!ready) return; int q = int(s.n(0, 0, 3)); bool good = q < 3; bool b = f->setIntegrationMethod(IM[q]); lib(); if (b != good) fail("lti.config", "integration method %d returned %d", q, int(b)); if (good) { fault(F_RECONF); o.each([&](auto& m) { for (auto& z : m.x) z.im = q; }); } else fault(F_BADCFG); }
    void ode(const Step& s) { if (!ready) return; double w = 0; for (size_t i = 1; i <= n; ++i) w = std::max(w, std::pow(std::fabs(double(den[i]) / den[0]), 1.0 / double(i))); odeOn = s.n(0, 0, 1) != 0 && 2 * w * dt <= 0.2 && std::pow(std::fabs(double(den[n]) / den[0]), 1.0 / double(n)) >= 0.05 * w; }      // step small against the time constants
    void feed(float x) override {
        if (!ready) return; float y = f->excite(x); lib(); simtime(dt); observe(y); ++k; if (!std::isfinite(x)) poisoned = true; if (poisoned) return;
        o.step(y, "lti.continuous", "output", [&](auto& m) { return m.step(x); });
        if (lim && !o.dead && !(y >= lo && y <= hi)) fail("lti.limits", "output %.9g outside [%.9g, %.9g]", double(y), double(lo), double(hi));
        cover(421, uint64_t(bucket(y)), uint64_t(lim && y >= hi ? 2 : lim && y <= lo ? 1 : 0), n * 8 + size_t(o.d.x[0].im));
        if (odeOn) {
            auto der = [&](const std::vector<double>& v) { std::vector<double> d(n); d[0] = x; for (size_t i = 0; i < n; ++i) d[0] -= double(den[i + 1]) / den[0] * v[i]; for (size_t i = 1; i < n; ++i) d[i] = v[i - 1]; return d; };
            auto add = [&](const std::vector<double>& v, const std::vector<double>& d, double h) { std::vector<double> q(v); for (size_t i = 0; i < n; ++i) q[i] += h * d[i]; return q; };
            double h = dt; auto k1 = der(ex), k2 = der(add(ex, k1, h / 2)), k3 = der(add(ex, k2, h / 2)), k4 = der(add(ex, k3, h)); for (size_t i = 0; i < n; ++i) ex[i] += h / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]);
            double b0 = double(num[0]) / den[0], want = b0 * x, sc = std::fabs(b0 * x); for (size_t i = 0; i < n; ++i) { double c = double(num[i + 1]) / den[0] - double(den[i + 1]) / den[0] * b0; want += c * ex[i]; sc += std::fabs(c * ex[i]); }
            { double l = 0; auto e = der(ex); for (size_t i = 0; i < n; ++i) { double c = double(num[i + 1]) / den[0] - double(den[i + 1]) / den[0] * b0; l += std::fabs(c) * std::max(std::fabs(k1[i]), std::fabs(e[i])) * 3 * dt; } lag = std::max(lag, l); } top = std::max(top, std::max(sc, std::fabs((double(num[n]) / den[0] - double(den[n]) / den[0] * b0) * x / (double(den[n]) / den[0])))); ++since; if (lim) want = std::min(std::max(want, double(lo)), double(hi));
            if (!o.dead) { sh->compares++; if (!(std::fabs(y - want) <= 0.12 * top + lag + 1e-9)) fail("lti.ode", "order %zu, step %ld: output %.6g, exact solution %.6g (magnitude of the terms %.6g)", n, since, double(y), want, top); }
        }
    }
};
void genCont(Rng& r, Plan& p) {
    p.add("dirt", {double(r.below(5)), double(r.next() >> 20)});
    int reps = r.range(1, 3);
    for (int q = 0; q < reps; ++q) {
        int n = r.chance(0.3) ? 1 : r.range(2, 6); double wm = r.logu(0.1, 20); bool ode = r.chance(0.5); double fr = ode ? r.uni(0.002, 0.01) : r.uni(0.01, 0.15); if (r.chance(0.3)) { static const double D[] = {1, 0.5, 0.1, 0.01, 2}; wm = fr / D[r.below(5)]; } double dt = fr / wm; std::vector<double> d = polyFromRoots(r, n, false, wm), a{double(n), dt, double(r.below(12))}; double sc = r.chance(0.4) ? 1 : r.logu(0.005, 500) * r.sgn();
        bool whole = r.chance(0.15); a.push_back(r.chance(0.5) ? 0 : r.uni(-2, 2) * sc); for (int i = 1; i <= n; ++i) a.push_back(r.chance(0.3) && i < n ? 0 : r.uni(-2, 2) * sc * std::pow(wm, double(i))); if (whole) for (size_t i = 3; i < a.size(); ++i) a[i] = std::round(a[i]);
        for (double v : d) a.push_back(v * sc);
        p.addv("setup", a); if (ode) p.add("ode", {1}); double amp = r.chance(0.15) ? r.logu(1e-8, 1e8) : r.logu(0.1, 1000);
        int m = r.range(1, 5);
        while (m--) {
            if (r.chance(0.25)) { double l = r.uni(-1, 1) * amp; p.add("sat", {l, l + r.uni(-0.3, 2) * amp}); }
            if (r.chance(0.3)) { std::vector<double> x; for (int i = 0; i < n; ++i) x.push_back(r.uni(-1, 1) * amp / std::pow(wm, double(i + 1))); p.addv("init", x); }
            if (r.chance(0.5)) p.add("meth", {double(r.below(4))});
            genFeed(r, p, r.range(2, 12), amp, !ode, r.chance(0.2), 0.06);
            p.add("b", {double(r.range(50, 800)), double(SIG_STEP), 1, amp, 0, double(r.range(20, 400)), 0});
        }
    }
}
Reg r13("P13", genCont, [](const Plan& p) { execLti<UCont>(p); });

// ------------------------------------------------------------------ P25 numerical states
template <class T> struct NumW : Dec { NumM<T> x; T mag() const { return mabs(x.x0) + mabs(x.x1); }
    T integ(float s, float dt, bool u) { T v = x.integrate(T(s), T(dt), u); lin = val(mabs(v)) + val(mabs(T(s) * T(dt))); return v; }
    T der(float s, float dt, bool u) { lin = 0; fl = 1e-6 * (std::fabs(s) + val(mabs(x.x1)) + val(mabs(x.x2))) / dt; return x.derive(T(s), T(dt), u); } };
void genNum(Rng& r, Plan& p) {
    p.add("dirt", {double(r.below(5)), double(r.next() >> 20)}); double amp = wideAmp(r), dt = r.chance(0.2) ? 1.0 : r.logu(1e-3, 10);
    p.add("new", {double(r.below(4)), r.uni(-1, 1) * amp, r.uni(-1, 1) * amp, r.uni(-1, 1) * amp});
    int n = r.range(5, 80); int bias = int(r.below(3));
    for (int i = 0; i < n; ++i) {
        double c = r.uni(), h = r.chance(0.3) ? dt * r.logu(0.2, 5) : dt, x = r.uni(-1, 1) * amp, u = r.chance(0.2) ? 0 : 1;
        if (c < 0.55) { bool integ = bias == 0 ? r.chance(0.8) : bias == 1 ? r.chance(0.2) : r.chance(0.5); p.add(integ ? "i" : "d", {x, h, u}); }
        else if (c < 0.68) p.add("im", {double(r.below(4))});
        else if (c < 0.80) p.add("dm", {double(r.below(3))});
        else if (c < 0.86) p.add("init", {x, r.uni(-1, 1) * amp, r.uni(-1, 1) * amp, double(r.below(6))});
        else if (c < 0.95) p.add("b", {double(r.chance(0.05) ? r.range(1000, 20000) : r.range(2, 100)), double(r.below(2)), double(r.below(SIG_KINDS)), double(r.next() >> 16), amp, dt});
        else p.add("op", {r.uni(-5, 5)});
    }
}
void execNum(const Plan& p) {
    nState* x = nullptr; Tri<NumW> o, q;      // q: derivative outputs have their own scale, the state lives in o
    auto integ = [&](float s, float h, bool u, int def) { float y = def ? x->integrate(s, h) : x->integrate(s, h, u); if (def) u = true; lib(); simtime(h); o.step(y, "numa.integral", "integral", [&](auto& m) { return m.integ(s, h, u); }); float z = (*x)(); if (!Bits::eq(z, y)) fail("numa.value", "state value %.9g differs from the returned integral %.9g", double(z), double(y)); cover(430, uint64_t(o.d.x.im), u, uint64_t(bucket(y))); };
    auto der = [&](float s, float h, bool u) {
        float y = u && s > 0 ? x->derive(s, h) : x->derive(s, h, u); lib(); simtime(h);
        // the derivative oracle runs on copies of the state models
        q.d = o.d; for (int i = 0; i < 3; ++i) q.n[i] = o.n[i]; q.revive(); q.dead = o.dead; q.floorRel = 2e-6;
        if (!o.dead) q.step(y, "numa.derivative", "derivative", [&](auto& m) { return m.der(s, h, u); }); else { o.each([&](auto& m) { m.der(s, h, u); }); return; }
        bool live = !o.dead; o.d = q.d; for (int i = 0; i < 3; ++i) o.n[i] = q.n[i]; (void)live; cover(431, uint64_t(q.d.x.dm), u, uint64_t(bucket(y)));
    };
    auto fresh = [&](float a, float b, float c) { o.each([&](auto& m) { using T = decltype(m.x.x0); m.x.init(T(a), T(b), T(c)); }); o.revive(); };
    for (auto& s : p.s) {
        if (s.h == H("dirt")) { setDirt(int(s.n(0, 0, 4)), uint64_t(s.arg(1))); continue; }
        if (s.h == H("new")) { switch (s.n(0, 0, 3)) { case 1: x = make<nState>(s.f(1), s.f(2), s.f(3)); fresh(s.f(1), s.f(2), s.f(3)); break; case 2: x = make<nState>(s.f(1)); fresh(s.f(1), 0, 0); break; case 3: x = make<nState>(s.f(1), s.f(2)); fresh(s.f(1), s.f(2), 0); break; default: x = make<nState>(); fresh(0, 0, 0); } o.each([](auto& m) { m.x.im = 1; m.x.dm = 0; }); continue; }
        if (!x) continue;
        switch (s.h) {
            case H("i"): integ(s.r(0, -1e6, 1e6, 0), s.r(1, 1e-4, 100, 1), s.n(2, 0, 1, 1), s.n(2, 0, 1, 1) && s.arg(0) > 0); break;
            case H("d"): der(s.r(0, -1e6, 1e6, 0), s.r(1, 1e-4, 100, 1), s.n(2, 0, 1, 1)); break;
            case H("im"): { int k = int(s.n(0, 0, 3)); x->setIntegrationMethod(IM[k]); fault(F_RECONF); o.each([&](auto& m) { m.x.im = k; }); break; }
            case H("dm"): { int k = int(s.n(0, 0, 2)); x->setDerivationMethod(DM[k]); fault(F_RECONF); o.each([&](auto& m) { m.x.dm = k; }); break; }
            case H("init"): { float a = s.f(0), b = s.f(1), c = s.f(2); switch (s.n(3, 0, 5)) { case 1: a = b = c = 0; x->init(); break; case 2: b = c = 0; x->init(a); break; case 3: c = 0; x->init(a, b); break; default: x->init(a, b, c); } fault(F_RESET); fresh(a, b, c); if (!Bits::eq((*x)(), a)) fail("numa.value", "initial value not taken"); break; }
            case H("b"): { long n = s.n(0, 0, 100000); bool in = s.n(1, 0, 1); Signal g(uint64_t(s.arg(3)), int(s.n(2, 0, SIG_KINDS - 1)), s.r(4, -1e5, 1e5, 1), 0, 13); float h = s.r(5, 1e-4, 100, 1); while (n--) { float v = float(g.next()); if (v > 1e6f) v = 1e6f; if (v < -1e6f) v = -1e6f; if (in) integ(v, h, true, 0); else der(v, h, true); } break; }
            case H("op"): { float v = s.r(0, -1e3, 1e3, 2), a = (*x)(); auto ck = [&](float got, float want, const char* w) { sh->compares++; if (!(Bits::eq(got, want) || (got != got && want != want))) fail("numa.operator", "%s: %.9g instead of %.9g", w, double(got), double(want)); };
                if (!std::isfinite(a)) break; lib(8); ck(*x + v, a + v, "state + value"); ck(v + *x, v + a, "value + state"); ck(*x - v, a - v, "state - value"); ck(v - *x, v - a, "value - state"); ck(*x * v, a * v, "state * value"); ck(v * *x, v * a, "value * state"); if (v != 0) ck(*x / v, a / v, "state / value"); if (a != 0) ck(v / *x, v / a, "value / state"); break; }
            default: break;
        }
    }
}
Reg r25("P25", genNum, execNum);
} // namespace
