// PID scenarios: P01 output limits, P02 automatic law, P03 manual/bumpless, P04 recovery, P05 auto-tuning, P06 model reference.
#include "models.hpp"
#include <qlibs.h>
using namespace sim;
using namespace qlibs;

namespace {
const float EPS0 = 1.17549435e-38f;
const integrationMethod IM[4] = {INTEGRATION_RECTANGULAR, INTEGRATION_TRAPEZOIDAL, INTEGRATION_SIMPSON, INTEGRATION_QUADRATIC};
const derivationMethod DM[3] = {DERIVATION_2POINTS, DERIVATION_BACKWARD, DERIVATION_FORWARD};

enum Mode { M_LIMITS, M_AUTO, M_MANUAL, M_MRAC };

// sensor fault applied to a measurement stream inside the "loop" step
double faulty(Rng& r, int kind, double y, double& mem, double amp) {
    switch (kind) {
        case 1: fault(F_STUCK); return mem;
        case 2: fault(F_DROP_ZERO); return 0;
        case 3: if (r.chance(0.1)) { fault(F_SPIKE); return y + amp * r.sgn() * 20; } break;
        case 4: fault(F_BIAS); return y + amp;
        case 5: fault(F_NOISE); return y + amp * r.uni(-1, 1);
        case 6: fault(F_CLIP); return y > amp ? amp : (y < -amp ? -amp : y);
        case 7: fault(F_QUANT); return std::floor(y / (std::fabs(amp) + 1e-3)) * (std::fabs(amp) + 1e-3);
        case 8: fault(F_SIGN); return -y;
        case 9: if (r.chance(0.3)) { fault(F_DROP_HOLD); return mem; } break;
        default: break;
    }
    mem = y;
    return y;
}

void genPid(Rng& r, Plan& p, Mode md) {
    auto gain = [&](double lo, double hi) { return double(float(r.logu(lo, hi))); };
    double dt = r.chance(0.3) ? 1.0 : gain(1e-3, 1.0);
    double kc = gain(0.01, 30), ki = r.chance(0.15) ? 0 : kc * gain(0.01, 0.8) / std::max(dt, 0.1), kd = r.chance(0.3) ? 0 : kc * dt * gain(0.05, 5);
    ki = double(float(std::min(ki, gain(0.05, 0.95) / dt)));
    if (md == M_MANUAL || r.chance(0.03)) { if (r.chance(0.3)) kd = 0; }
    if (r.chance(0.1)) { kc = -kc; ki = -ki; kd = -kd; }
    p.add("dirt", {double(r.below(5)), double(r.next() >> 20)});
    if (r.chance(0.05)) p.add("s", {1, 2, 0});           // before set-up
    p.add("setup", {kc, ki, kd, dt, double(r.chance(0.3))});
    bool wideSat = r.chance(0.5);
    if (wideSat) { double w = gain(10, 1e5); p.add("sat", {-w, w * r.uni(0.2, 2)}); }
    else if (r.chance(0.6)) { double l = r.uni(-200, 100); p.add("sat", {l, l + gain(0.1, 200)}); }
    if (r.chance(0.3)) p.add("imeth", {double(r.below(4))});
    if (r.chance(0.3)) p.add("dmeth", {double(r.below(3))});
    if (r.chance(0.5)) p.add("extra", {std::min(gain(0.05, 5), 0.8 / dt), r.chance(0.3) ? 1.0 : r.uni(0.05, 2)});
    if (md == M_MRAC || (md == M_LIMITS && r.chance(0.3))) p.add("mrac", {gain(1e-3, 2), gain(1e-3, 2), double(r.chance(0.15) ? r.range(1, 2) : 0)});
    double amp = gain(0.1, 300), w = r.uni(-1, 1) * amp;
    bool sw_gain = r.chance(0.6), sw_sat = r.chance(0.5), sw_mode = md == M_MANUAL ? true : r.chance(md == M_AUTO ? 0.25 : 0.4), sw_flt = r.chance(0.5), sw_dir = r.chance(0.3), sw_eps = r.chance(0.25), sw_w = r.chance(0.5), sw_meth = r.chance(0.2), sw_reset = r.chance(0.3), sw_setup = r.chance(0.1), sw_mrac = md == M_MRAC ? r.chance(0.6) : r.chance(0.1);
    int n = r.range(8, 90);
    for (int i = 0; i < n; ++i) {
        double c = r.uni(); if (md == M_MRAC && r.chance(0.04)) p.add("reset");
        if (c < 0.45) {
            int k = r.range(1, 4);
            for (int j = 0; j < k; ++j) { if (r.chance(0.1)) w = r.uni(-1, 1) * amp; double y = w + r.uni(-1, 1) * amp * gain(1e-3, 1), z = r.uni(); p.add("s", {w, y, z < 0.08 ? 0 : z < 0.16 ? y : z < 0.2 ? w : r.uni(-1, 1) * amp}); }
        }
        else if (c < 0.55) p.add("b", {double(r.range(2, 120)), double(r.below(SIG_KINDS)), double(r.next() >> 16), amp * gain(0.01, 1), r.uni(-1, 1) * amp, double(r.range(1, 30)), w});
        else if (c < 0.65) p.add("loop", {double(r.range(5, 150)), w, gain(0.05, 5) * (sw_dir ? r.sgn() : 1), gain(1, 60), double(r.below(10)), amp * gain(0.05, 1), double(r.next() >> 16)});
        else if (sw_gain && c < 0.70) { double q = gain(0.3, 3); if (r.chance(0.4)) p.add("gains", {kc * q, std::min(ki * gain(0.3, 2), 0.9 / dt), kd * gain(0.3, 2), double(r.below(2))}); else if (r.chance(0.5)) p.add("params", {kc * q, std::max(1.1 * std::fabs(kc * q), 1.0) * gain(1, 50) * dt, r.chance(0.3) ? 0 : gain(0.05, 5) * dt}); else p.add("series"); }
        else if (sw_sat && c < 0.74) { double l = r.uni(-1, 1) * amp; p.add("sat", {l, l + amp * gain(0.01, 10)}); }
        else if (sw_mode && c < 0.80) { p.add("mode", {double(r.below(2))}); if (r.chance(0.5)) p.add("min", {r.chance(0.3) ? 0 : r.uni(-1, 1) * amp}); }
        else if (sw_flt && c < 0.84) { if (r.chance(0.5)) p.add("beta", {r.chance(0.2) ? 0 : r.uni(0, 0.999)}); else p.add("tf", {r.chance(0.1) ? 0 : gain(0.05, 50) * dt}); }
        else if (sw_dir && c < 0.87) p.add("dir", {double(r.below(2))});
        else if (sw_eps && c < 0.90) p.add("eps", {r.chance(0.25) ? 0.0 : r.chance(0.25) ? double(EPS0) : gain(1e-3, 0.5) * amp});
        else if (sw_w && c < 0.93) p.add("refw", {r.uni(-0.3, 1.3), r.uni(-0.3, 1.3)});
        else if (sw_meth && c < 0.95) { if (r.chance(0.5)) p.add("imeth", {double(r.below(4))}); else p.add("dmeth", {double(r.below(3))}); }
        else if (sw_reset && c < 0.965) p.add("reset");
        else if (sw_setup && c < 0.975) p.add("setup", {kc, ki, kd, dt, double(r.chance(0.3))});
        else if (sw_mrac && c < 0.995) { if (r.chance(0.5)) p.add("mrac", {gain(1e-3, 2), gain(1e-3, 2), double(r.chance(0.15) ? r.range(1, 2) : 0)}); else p.add("unmrac"); }
        else if (r.chance(0.3)) p.add("extra", {std::min(gain(0.05, 5), 0.8 / dt), r.uni(0, 2)});
        else if (r.chance(0.04)) p.add("b", {double(r.range(2000, 70000)), double(SIG_SINE), double(r.next() >> 16), amp * 0.5, w, double(r.range(10, 3000)), w});
    }
    // a quiet period, then the switches that must be bumpless
    if (md == M_MANUAL && r.chance(0.6)) {
        p.add("bump", {w, w * r.uni(0.5, 1.5), r.uni(0.1, 0.9), double(r.below(2))});
    }
}

struct PidRun {
    pidController* c = nullptr; Tri<PidM> o; float yr = 0; float dt = 1; bool on = false; double y = 0, mem = 0; Mode md; const char* key;
    float lo = 0, hi = 100; bool overflow = false; float* yrp;
    uint64_t k = 0;
    // domain: anti-windup and tracking loops that are stable in discrete time
    bool stable(double ki, double kw) const { return std::fabs(ki) * kw * dt <= 1.0 && kw * dt <= 1.0; }
    float step(float w, float y_, float yr_) {
        *yrp = yr_; bool wasOn = on;
        float u = c->control(w, y_); lib(); simtime(dt); ++k;
        if (!std::isfinite(w) || !std::isfinite(y_)) overflow = true;
        o.step(u, key, "controller output", [&](auto& m) { return m.control(w, y_, yr_); });
        if (!(val(o.d.mag()) < 1e25)) overflow = true;
        for (auto& m : o.n) if (!(val(m.mag()) < 1e25)) overflow = true;
        if (wasOn && !overflow && !(u >= lo && u <= hi)) fail("pid.limits", "output %.9g outside [%.9g, %.9g] in force (%s mode, step %llu)", double(u), double(lo), double(hi), o.d.man ? "manual" : "automatic", (unsigned long long)k);
        int sat = wasOn ? (u >= hi ? 2 : u <= lo ? 1 : 0) : 3;
        cover(100 + uint32_t(md), uint64_t(sat) * 64 + (o.d.man ? 1 : 0) + (o.d.back ? 2 : 0) + (o.d.mrac ? 4 : 0) + (o.d.eps > 1e-30 ? 8 : 0) + uint64_t(o.d.I.im) * 1024 + uint64_t(o.d.Dn.dm) * 8192, uint64_t(bucket(val(o.d.v))), uint64_t(bucket(val(o.d.u1))));
        return u;
    }
};

void execPid(const Plan& p, Mode md) {
    PidRun R; R.md = md;
    static const char* keys[] = {"pid.law.limits", "pid.law.auto", "pid.law.manual", "pid.law.mrac"};
    R.key = keys[md];
    Rng fr(7);
    for (auto& s : p.s) {
        if (s.h == H("dirt")) { setDirt(int(s.n(0, 0, 4)), uint64_t(s.arg(1))); continue; }
        if (!R.c) { R.c = make<pidController>(); R.yrp = arr<float>(1); *R.yrp = 0; }
        pidController& c = *R.c; auto& o = R.o;
        auto ok = [&](bool got, const char* what) { lib(); observe(uint64_t(got)); if (got != R.on) fail("pid.config", "%s returned %d on a controller that is%s set up", what, int(got), R.on ? "" : " not"); };
        switch (s.h) {
            case H("setup"): {
                float kc = s.r(0, -1e3, 1e3, 1), ki = s.r(1, -1e3, 1e3, 0), kd = s.r(2, -1e3, 1e3, 0), h = s.r(3, 1e-3, 1, 1); if (std::fabs(ki) * h > 1.0f) break;
                bool b = s.n(4, 0, 1) ? c.setup(pidGains{kc, ki, kd}, h) : c.setup(kc, ki, kd, h); lib();
                if (!b) fail("pid.config", "set-up with dt=%g rejected", double(h));
                if (R.on) fault(F_RECONF);
                R.on = true; R.dt = h; R.lo = 0; R.hi = 100; o.each([&](auto& m) { m.setup(kc, ki, kd, h); });
                R.overflow = false; o.revive();
                break;
            }
            case H("sat"): { float l = s.r(0, -1e6, 1e6, 0), h = s.r(1, -1e6, 1e6, 100); if (!(h > l)) break; ok(c.setSaturation(l, h), "limits"); if (R.on) { fault(F_RECONF); R.lo = l; R.hi = h; o.each([&](auto& m) { using T = decltype(m.lo); m.lo = T(l); m.hi = T(h); }); } break; }
            case H("gains"): { float a = s.r(0, -1e3, 1e3, 1), b = s.r(1, -1e3, 1e3, 0), d = s.r(2, -1e3, 1e3, 0); if (R.on && !R.stable(b, o.d.kw)) break; ok(s.n(3, 0, 1) ? c.setGains(pidGains{a, b, d}) : c.setGains(a, b, d), "gains"); if (R.on) { fault(F_RECONF); o.each([&](auto& m) { using T = decltype(m.lo); m.Kc = T(a); m.Ki = T(b); m.Kd = T(d); }); pidGains g = c.getGains(); if (!(g.Kc == a && g.Ki == b && g.Kd == d)) fail("pid.gains", "gains read back differ"); } break; }
            case H("params"): { float a = s.r(0, -1e3, 1e3, 1), ti = s.r(1, 1e-4, 1e4, 1), td = s.r(2, 0, 1e4, 0); if (R.on && !R.stable(a / ti, o.d.kw)) break; ok(c.setParams(a, ti, td), "params"); if (R.on) { fault(F_RECONF); o.each([&](auto& m) { m.params(a, ti, td); }); } break; }
            case H("series"): { if (!R.on || std::fabs(o.d.Kc) < 1e-6 || std::fabs(o.d.Ki) < 1e-6 || std::fabs(o.d.Kc) > 1e4 || std::fabs(o.d.Kd) > 1e5) break; ok(c.setSeries(), "series"); fault(F_RECONF); o.each([&](auto& m) { m.series(); }); break; }
            case H("extra"): { float a = s.r(0, 0, 100, 1), b = s.r(1, 0, 100, 1); if (R.on && !R.stable(o.d.Ki, a)) break; ok(c.setExtraGains(a, b), "extra gains"); if (R.on) o.each([&](auto& m) { using T = decltype(m.lo); m.kw = T(a); m.kt = T(b); }); break; }
            case H("eps"): { float e = s.r(0, 0, 1e6, 0); ok(c.setEpsilon(e), "epsilon"); if (R.on) o.each([&](auto& m) { using T = decltype(m.lo); m.eps = T(e); }); break; }
            case H("beta"): { float e = s.r(0, 0, 0.9999, 0); ok(c.setDerivativeFilter(e), "filter"); if (R.on) o.each([&](auto& m) { using T = decltype(m.lo); m.beta = T(e); }); break; }
            case H("tf"): { float e = s.r(0, 0, 1e5, 1); ok(c.setDerivativeFilterTimeConstant(e), "filter time constant"); if (R.on) o.each([&](auto& m) { m.tf(e); }); break; }
            case H("mode"): { bool man = s.n(0, 0, 1); ok(c.setMode(man ? pidMode::PID_MANUAL : pidMode::PID_AUTOMATIC), "mode"); if (R.on) { fault(F_RECONF); o.each([&](auto& m) { m.man = man; }); } break; }
            case H("min"): { float e = s.r(0, -1e6, 1e6, 0); ok(c.setManualInput(e), "manual input"); if (R.on) o.each([&](auto& m) { using T = decltype(m.lo); m.mIn = T(e); }); break; }
            case H("refw"): { float a = s.f(0, 1), b = s.f(1, 0); if (!(std::fabs(a) < 1e6 && std::fabs(b) < 1e6)) break; ok(c.setReferenceWeighting(a, b), "weighting"); if (R.on) o.each([&](auto& m) { using T = decltype(m.lo); m.b = msat(T(a), T(0), T(1.0)); m.c = msat(T(b), T(0), T(1.0)); }); break; }
            case H("dir"): { bool bk = s.n(0, 0, 1); ok(c.setDirection(bk ? pidDirection::PID_BACKWARD : pidDirection::PID_FORWARD), "direction"); if (R.on) { fault(F_RECONF); o.each([&](auto& m) { m.back = bk; }); } break; }
            case H("imeth"): { int k = int(s.n(0, 0, 3)); c.setIntegrationMethod(IM[k]); o.each([&](auto& m) { m.I.im = k; }); break; }
            case H("dmeth"): { int k = int(s.n(0, 0, 2)); c.setDerivationMethod(DM[k]); o.each([&](auto& m) { m.Dn.dm = k; }); break; }
            case H("reset"): { ok(c.reset(), "reset"); if (R.on) { fault(F_RESET); o.each([&](auto& m) { m.reset(); }); R.overflow = false; o.revive(); } break; }
            case H("mrac"): { float g = s.r(0, 1e-6, 100, 0.5), a = s.r(1, 1e-6, 100, 0.01); int def = int(s.n(2, 0, 2)); if (def) a = 0.01f; if (def == 2) g = 0.5f; ok(def == 2 ? c.setModelReferenceControl(*R.yrp) : def ? c.setModelReferenceControl(*R.yrp, g) : c.setModelReferenceControl(*R.yrp, g, a), "model reference"); if (R.on) o.each([&](auto& m) { m.setMrac(g, a); }); break; }
            case H("unmrac"): { ok(c.removeModelReferenceControl(), "model reference removal"); if (R.on) o.each([&](auto& m) { m.mrac = false; }); break; }
            case H("s"): R.step(s.r(0, -1e6, 1e6, 0), s.r(1, -1e6, 1e6, 0), s.r(2, -1e6, 1e6, 0)); break;
            case H("b"): {
                Signal g(uint64_t(s.arg(2)), int(s.n(1, 0, SIG_KINDS - 1)), s.r(3, -1e5, 1e5, 1), s.r(4, -1e5, 1e5, 0), double(s.n(5, 1, 100000, 1)));
                long n = s.n(0, 0, 100000); float w = s.r(6, -1e6, 1e6, 0);
                for (long i = 0; i < n; ++i) { double y = g.next(); R.step(w, float(y), float(0.5 * y + 0.1 * double(i % 7))); }
                break;
            }
            case H("loop"): {
                long n = s.n(0, 0, 100000); float w = s.r(1, -1e6, 1e6, 0); double K = s.r(2, -100, 100, 1), tau = s.r(3, 1, 1e4, 10); int fk = int(s.n(4, 0, 9)); double amp = s.r(5, -1e5, 1e5, 1); Rng rr(uint64_t(s.arg(6)));
                double yr = 0;
                for (long i = 0; i < n; ++i) {
                    double ym = faulty(rr, fk, R.y, R.mem, amp);
                    if (!(std::fabs(ym) < 1e7)) break;
                    yr += (double(w) - yr) / (tau + 1);
                    float u = R.step(w, float(ym), float(yr));
                    if (!std::isfinite(u)) break;
                    R.y += (K * double(u) - R.y) / (tau + 1);
                }
                break;
            }
            case H("bump"): {
                // settle in automatic with no manual input against a static process, then switch
                if (!R.on || R.overflow) break;
                float w = s.r(0, -1e5, 1e5, 0), y = s.r(1, -1e5, 1e5, 0), f = s.r(2, 0.05, 0.95, 0.5); bool toMan = s.n(3, 0, 1, 1);
                // keep the proportional action inside the limits: gains and limits are set for the test
                float span = std::fabs(w - y) * 4 + 1; c.setGains(1.0f, 0.0f, 0.0f); c.setDirection(pidDirection::PID_FORWARD); c.setEpsilon(EPS0); c.setReferenceWeighting(1, 0); c.setSaturation(-span, span * (1 + f)); c.setManualInput(0); c.removeModelReferenceControl(); float kw = std::min(1.0f, 0.5f / R.dt); c.setExtraGains(kw, 1.0f); c.setMode(pidMode::PID_AUTOMATIC); c.reset();
                R.lo = -span; R.hi = span * (1 + f);
                float u = 0; int n = int(30.0 / (double(kw) * R.dt)) + 10; if (n > 60000) n = 60000;
                for (int i = 0; i < n; ++i) { u = c.control(w, y); lib(); simtime(R.dt); }
                if (toMan) { c.setMode(pidMode::PID_MANUAL); float um = c.control(w, y * 0.5f); lib();
                    if (!(std::fabs(um - u) <= 2e-3f * (1 + std::fabs(u)))) fail("pid.bump", "switch to manual moved the output from %.7g to %.7g", double(u), double(um));
                    // hold: without manual input the output stays
                    for (int i = 0; i < 50; ++i) { float v = c.control(w, y * float(i % 3)); lib(); if (!(std::fabs(v - um) <= 4e-3f * (1 + std::fabs(um)))) fail("pid.bump", "manual output drifts from %.7g to %.7g without manual input", double(um), double(v)); } }
                cover(105, toMan);
                return;              // the model was bypassed: end of the run
            }
            default: break;
        }
    }
    if (R.c) { pidGains g = R.c->getGains(); observe(g.Kc); observe(g.Ki); observe(g.Kd);
        if (R.on && !R.overflow && std::isfinite(R.o.d.Kc) && std::fabs(R.o.d.Kd) < 1e30) {
            auto near = [](double a, double b) { return std::fabs(a - b) <= 1e-4 * (std::fabs(b) + 1e-9); };
            if (!near(g.Kc, R.o.d.Kc) || !near(g.Ki, R.o.d.Ki) || !near(g.Kd, R.o.d.Kd)) fail("pid.gains", "gains (%g,%g,%g) differ from the configured (%g,%g,%g)", double(g.Kc), double(g.Ki), double(g.Kd), R.o.d.Kc, R.o.d.Ki, R.o.d.Kd);
        } }
}
Reg r1("P01", [](Rng& r, Plan& p) { genPid(r, p, M_LIMITS); }, [](const Plan& p) { execPid(p, M_LIMITS); });
Reg r2("P02", [](Rng& r, Plan& p) { genPid(r, p, M_AUTO); }, [](const Plan& p) { execPid(p, M_AUTO); });
Reg r3("P03", [](Rng& r, Plan& p) { genPid(r, p, M_MANUAL); }, [](const Plan& p) { execPid(p, M_MANUAL); });
Reg r6("P06", [](Rng& r, Plan& p) { genPid(r, p, M_MRAC); }, [](const Plan& p) { execPid(p, M_MRAC); });
// ------------------------------------------------------------------ P04: recovery of the closed loop
void genLoop(Rng& r, Plan& p) {
    double K = r.logu(0.1, 10), tau = r.logu(0.5, 50); int order = r.range(1, 2); double tau2 = tau * r.uni(0.05, 0.3);
    double lam = r.uni(0.4, 2.0), dtr = r.logu(30, 200), kwr = r.logu(1, 10);
    p.add("dirt", {double(r.below(5)), double(r.next() >> 20)});
    p.add("plant", {K, tau, double(order), tau2, double(r.below(3)), lam, dtr, kwr, double(r.below(3)), r.chance(0.3) ? 0.0 : r.uni(0.02, 0.12), double(r.below(4)), double(r.below(3)), r.uni(0.3, 0.95)});
    double lo = r.uni(-100, 60), span = r.logu(5, 200);
    p.add("lims", {lo, lo + span});
    int n = r.range(1, 12);
    for (int i = 0; i < n; ++i) {
        double len = std::floor(r.logu(3, 4000)), f = r.uni(0.1, 0.9);
        switch (r.below(10)) {
            case 0: p.add("run", {len, f}); break;
            case 1: p.add("run", {len, r.chance(0.5) ? r.uni(1.1, 6) : -r.uni(0.1, 5)}); break;       // unreachable set-point
            case 2: case 3: case 4: p.add("sensor", {len, f, double(r.range(1, 9)), r.logu(0.05, 3), double(r.next() >> 16)}); break;
            case 5: p.add("act", {len, f, double(r.below(2)), r.uni(0, 1)}); break;
            case 6: p.add("load", {len, f, r.uni(-2, 2)}); break;
            case 7: p.add("man", {len, f, r.chance(0.3) ? 0 : r.uni(-1, 1)}); break;
            case 8: p.add("sched", {len, f, double(r.next() >> 16)}); break;
            case 9: if (r.chance(0.5)) p.add("nan", {std::floor(r.uni(1, 20)), f}); else p.add("reset", {}); break;
        }
    }
    p.add("recover", {r.uni(0.15, 0.85), r.chance(0.3) ? r.uni(-0.1, 0.1) : 0});
}
template <class C> struct Loop {                    // one closed loop: controller C and its own plant
    C* c; double x1 = 0, x2 = 0, K = 1, a1 = 0.1, a2 = 0; int order = 1; double u = 0, mem = 0, load = 0;
    double y() const { return order == 1 ? x1 : x2; }
    void plant(double ua) { x1 += a1 * (K * (ua + load) - x1); if (order == 2) x2 += a2 * (x1 - x2); }
};
void execLoop(const Plan& p) {
    pidController* c = nullptr; PidM<double> ref; Loop<pidController> L; Loop<PidM<double>> M; double lo = 0, hi = 100, dt = 1, tau = 1, ysp = 1; long slow = 100; bool ready = false; double tail = 0;
    float yrd = 0;
    auto control = [&](float w, double yl, double ym) {
        float u = c->control(w, float(yl)); lib(); simtime(dt); observe(u); double um = ref.control(w, float(ym), yrd);
        if (!(u >= lo && u <= hi) && std::isfinite(yl)) fail("loop.limits", "output %.9g outside [%g, %g]", double(u), lo, hi);
        L.u = u; M.u = um;
    };
    auto sp = [&](double f) { return float((M.K > 0 ? lo + f * (hi - lo) : hi - f * (hi - lo)) * M.K); };
    for (auto& s : p.s) {
        if (s.h == H("dirt")) { setDirt(int(s.n(0, 0, 4)), uint64_t(s.arg(1))); continue; }
        if (s.h == H("plant")) {
            if (ready) continue;
            c = make<pidController>(); L.c = c; M.c = &ref;
            double K = s.r(0, 0.01, 100, 1); tau = s.r(1, 0.1, 1e3, 5); int order = int(s.n(2, 1, 2, 1)); double tau2 = std::min(double(s.r(3, 1e-3, 1e3, 0.1)), 0.3 * tau); int sg = int(s.n(4, 0, 2));
            double lam = s.r(5, 0.4, 4, 1) * tau, kwr = s.r(7, 1, 10, 2); dt = tau / s.r(6, 30, 300, 50); dt = float(dt); if (tau2 < dt * 2) tau2 = dt * 2;
            double te = order == 2 ? tau + tau2 : tau, kc = te / (K * lam), ki = kc / te, kd = kc * s.r(9, 0, 0.12, 0) * tau * 0.2;
            if (order == 2) { kc *= 0.6; ki *= 0.6; }
            double kw = std::min(kwr / (ki * tau), 0.5 / (ki * dt)); kw = std::min(kw, 0.5 / dt);
            if (!c->setup(float(sg == 2 ? -kc : kc), float(sg == 2 ? -ki : ki), float(sg == 2 ? -kd : kd), float(dt))) fail("loop.config", "set-up rejected");
            ref.setup(float(sg == 2 ? -kc : kc), float(sg == 2 ? -ki : ki), float(sg == 2 ? -kd : kd), float(dt));
            if (sg == 1) { c->setDirection(pidDirection::PID_BACKWARD); ref.back = true; }
            c->setExtraGains(float(kw), 1.0f); ref.kw = float(kw); ref.kt = 1;
            int im = int(s.n(10, 0, 3, 1)); c->setIntegrationMethod(IM[im]); ref.I.im = im;
            float be = s.r(12, 0, 0.98, 0.5); c->setDerivativeFilter(be); ref.beta = be;
            for (int q = 0; q < 2; ++q) { double &K_ = q ? M.K : L.K, &A1 = q ? M.a1 : L.a1, &A2 = q ? M.a2 : L.a2; (q ? M.order : L.order) = order; K_ = sg ? -K : K; A1 = 1 - std::exp(-dt / tau); A2 = 1 - std::exp(-dt / tau2); }
            slow = long(25 * std::max(std::max(lam, tau), 1 / (ki * kw)) / dt) + 200; if (slow > 40000) slow = 40000;
            ready = true; ysp = K * (hi - lo); cover(110, uint64_t(sg), uint64_t(order), uint64_t(im));
            continue;
        }
        if (!ready) continue;
        switch (s.h) {
            case H("lims"): { float l = s.r(0, -1e4, 1e4, 0), h = s.r(1, -1e4, 1e4, 100); if (!(h > l + 0.1f)) break; c->setSaturation(l, h); ref.lo = l; ref.hi = h; lo = l; hi = h; ysp = std::fabs(M.K) * (hi - lo); break; }
            case H("run"): { long n = s.n(0, 0, 5000); float w = sp(s.r(1, -10, 10, 0.5)); if (s.arg(1) < 0 || s.arg(1) > 1) fault(F_LEVEL); while (n--) { control(w, L.y(), M.y()); L.plant(L.u); M.plant(M.u); } break; }
            case H("sensor"): { long n = s.n(0, 0, 5000); float w = sp(s.r(1, 0, 1, 0.5)); int k = int(s.n(2, 1, 9, 1)); double amp = s.r(3, 0, 10, 1) * ysp; Rng r1(uint64_t(s.arg(4))), r2(uint64_t(s.arg(4)));
                while (n--) { double a = faulty(r1, k, L.y(), L.mem, amp); uint64_t f0[F_COUNT]; memcpy(f0, sh->faults, sizeof f0); uint64_t nf = sh->nfaults; double b = faulty(r2, k, M.y(), M.mem, amp); memcpy(sh->faults, f0, sizeof f0); sh->nfaults = nf; control(w, a, b); L.plant(L.u); M.plant(M.u); }
                cover(111, uint64_t(k), uint64_t(bucket(L.u)), uint64_t(L.u >= hi ? 2 : L.u <= lo)); break; }
            case H("act"): { long n = s.n(0, 0, 5000); float w = sp(s.r(1, 0, 1, 0.5)); int k = int(s.n(2, 0, 1)); double f = s.r(3, 0, 1, 0.5); double hu = L.u, hm = M.u;
                while (n--) { control(w, L.y(), M.y()); if (k) { fault(F_ACT_STUCK); L.plant(hu); M.plant(hm); } else { fault(F_ACT_RANGE); double top = lo + f * (hi - lo); L.plant(std::min(L.u, top)); M.plant(std::min(M.u, top)); } } break; }
            case H("load"): { long n = s.n(0, 0, 5000); float w = sp(s.r(1, 0, 1, 0.5)); double d = s.r(2, -3, 3, 0.5) * (hi - lo); L.load = M.load = d; fault(F_LOAD); while (n--) { control(w, L.y(), M.y()); L.plant(L.u); M.plant(M.u); } L.load = M.load = 0; break; }
            case H("man"): { long n = s.n(0, 0, 5000); float w = sp(s.r(1, 0, 1, 0.5)), m = float(s.r(2, -2, 2, 0) * (hi - lo) / (20 * tau)); c->setManualInput(m); ref.mIn = m; c->setMode(pidMode::PID_MANUAL); ref.man = true; fault(F_RECONF); while (n--) { control(w, L.y(), M.y()); L.plant(L.u); M.plant(M.u); }
                c->setMode(pidMode::PID_AUTOMATIC); ref.man = false; c->setManualInput(0); ref.mIn = 0; break; }
            case H("sched"): { long n = s.n(0, 0, 5000); float w = sp(s.r(1, 0, 1, 0.5)); Rng r(uint64_t(s.arg(2))); while (n--) { if (r.chance(0.2)) fault(F_MISSED); else control(w, L.y(), M.y()); if (r.chance(0.1)) { fault(F_DUP); control(w, L.y(), M.y()); } L.plant(L.u); M.plant(M.u); } break; }
            case H("nan"): { long n = s.n(0, 0, 100); float w = sp(s.r(1, 0, 1, 0.5)); while (n--) { fault(F_NAN); c->control(w, NAN); lib(); L.plant(0); M.plant(0); } }   // the supervisor sees the invalid output and resets
            /* fall through */
            case H("reset"): c->reset(); ref.reset(); fault(F_RESET); break;
            case H("recover"): {
                float w = sp(s.r(0, 0.15, 0.85, 0.5)); double d = s.r(1, -0.1, 0.1, 0) * (hi - lo); L.load = M.load = d; double tol = 0.01 * ysp; long okAt = -1, refAt = -1;
                for (long i = 0; i < slow; ++i) {
                    control(w, L.y(), M.y()); L.plant(L.u); M.plant(M.u);
                    if (std::fabs(L.y() - w) > tol) okAt = -1; else if (okAt < 0) okAt = i;
                    if (std::fabs(M.y() - w) > tol) refAt = -1; else if (refAt < 0) refAt = i;
                }
                if (refAt < 0 || refAt > slow / 2) { sh->skipped++; tail = 1; break; }          // the documented law itself does not make it in this loop
                sh->compares++; sh->tight++; cover(112, uint64_t(okAt < 0 ? 99 : okAt * 20 / slow), uint64_t(bucket(L.u)));
                if (okAt < 0 || okAt > slow * 3 / 4) fail("loop.recovery", "after the last fault the loop has not settled within %ld steps: process %.6g, set-point %.6g, output %.6g in [%g, %g] (reference loop settles after %ld steps)", slow * 3 / 4, L.y(), double(w), L.u, lo, hi, refAt);
                L.load = M.load = 0;
                break;
            }
            default: break;
        }
    }
    (void)tail;
}
Reg r4("P04", genLoop, execLoop);

// ------------------------------------------------------------------ P05: auto-tuning
template <class T> struct TuneM : Dec {
    T p00{1000.0}, p01{0}, p10{0}, p11{1000.0}, b1{0.1}, a1{0.9}, uk{0}, yk{0}, l{0.9898f}, k{0}, tao{0}, mu{0.95f}, speed{0.25f}; int type = 1; double left = -1; bool done = false, fired = false;
    T big{0}; bool ill = false;     // ill: cancellation in the gain vector exceeds single precision
    T mag() const { return big; }
    void bind(float Kc, float Ki, float dt) {
        l = T(0.9898f); p00 = T(1000.0); p11 = T(1000.0); p01 = T(0); p10 = T(0); uk = T(0); yk = T(0); k = T(0); tao = T(0); mu = T(0.95f); speed = T(0.25f); left = -1; done = false; big = T(0);
        T ki = T(Kc) / T(0.9f), ti = (T(0.27f) * ki) / T(Ki); a1 = -mexp(-T(dt) / ti); b1 = ki * (T(1.0) + a1);
    }
    // recursive least squares for y = b1 u1 - a1 y1 with forgetting
    T step(float uf, float yf, float dt) {
        T u(uf), y(yf); fired = false;
        // P * phi with phi = (uk, -yk)
        T g0 = p00 * uk - p01 * yk, g1 = p10 * uk - p11 * yk;
        T den = l + uk * g0 - yk * g1; ill = 1.2e-7 * (std::fabs(val(p00 * uk * uk)) + std::fabs(val(p01 * uk * yk)) + std::fabs(val(p10 * uk * yk)) + std::fabs(val(p11 * yk * yk))) > 3e-3 * std::fabs(val(den));
        T L0 = g0 / den, L1 = g1 / den;
        T e = y - (b1 * uk - a1 * yk);
        b1 += L0 * e; a1 += L1 * e;
        T n00 = (p00 - L0 * (uk * p00 - yk * p10)) / l + T(1e-10f), n01 = (p01 - L0 * (uk * p01 - yk * p11)) / l;
        T n10 = (p10 - L1 * (uk * p00 - yk * p10)) / l, n11 = (p11 - L1 * (uk * p01 - yk * p11)) / l + T(1e-10f);
        p00 = n00; p01 = n01; p10 = n10; p11 = n11; yk = y; uk = u;
        big = mabs(p00) + mabs(p11) + mabs(p01) + mabs(p10) + mabs(e);
        T gain = b1 / (T(1.0) + a1), tc = -T(dt) / mlog(mabs(a1));
        dec(mabs(a1), T(1.0), T(1e30)); dec(mabs(a1), T(0), T(1e30)); dec(a1, T(-1.0), T(1e30)); dec(b1, T(0), T(1e30));
        if (val(gain) > 0 && std::isfinite(val(gain)) && val(tc) > 0 && std::isfinite(val(tc)) && left != 0) {
            k = gain + mu * (k - gain); tao = tc + mu * (tao - tc);
            if (left > 0 && --left == 0) { fired = true; }
        }
        return k;
    }
};
void rule(int type, double sp, double k, double tao, double g[3]) {      // documented tuning rules, td = tao/10
    double td = tao * 0.1; g[0] = g[1] = g[2] = 0;
    switch (type) {
        case 0: g[0] = sp * 1.03 / k * (tao / td + 0.34); break;
        case 2: g[0] = sp * 1.24 / k * (tao / td + 0.129); g[2] = g[0] * 0.27 * td * (tao - 0.324 * td) / (tao + 0.129 * td); break;
        case 1: g[0] = sp * 0.9 / k * (tao / td + 0.092); g[1] = g[0] * (tao + 2.22 * td) / (3.33 * td * (tao + 0.092 * td)); break;
        case 3: g[0] = sp * 1.35 / k * (tao / td + 0.185); g[1] = g[0] * (tao + 0.611 * td) / (2.5 * td * (tao + 0.185 * td)); g[2] = 0.37 * g[0] * td * tao / (tao + 0.185 * td); break;
    }
}
void genTune(Rng& r, Plan& p) {
    p.add("dirt", {double(r.below(5)), double(r.next() >> 20)});
    double K = r.logu(0.1, 10), tau = r.logu(2, 60), dt = r.chance(0.5) ? 1.0 : r.logu(0.01, 1);
    p.add("setup", {r.logu(0.1, 5), r.logu(0.02, 1), r.chance(0.5) ? 0 : r.logu(0.01, 1), dt});
    bool rev = r.chance(0.25); p.add("plant", {rev && r.chance(0.3) ? -K : K, tau, r.chance(0.2) ? r.uni(0.1, 0.5) : 0, r.chance(0.15) ? r.logu(1e-4, 1e-2) : 0});
    p.add("sat", {r.chance(0.4) ? 0 : -r.logu(1, 1000), r.logu(1, 1000)});
    if (rev && r.chance(0.7)) p.add("dir", {1});
    if (r.chance(0.85)) p.add("bind");
    int n = r.range(3, 25); bool flt = r.chance(0.3);
    for (int i = 0; i < n; ++i) {
        double c = r.uni();
        if (c < 0.42) p.add("run", {std::floor(r.logu(3, 600)), r.uni(-1, 1) * 50, double(r.range(3, 40)), double(r.below(3)), double(r.next() >> 16), flt ? double(r.below(10)) : 0, r.logu(0.01, 1)});
        else if (c < 0.62) p.add("en", {r.chance(0.1) ? 0 : r.chance(0.1) ? 1 : r.chance(0.08) ? double(r.range(65000, 66500)) : std::floor(r.logu(1, 800))});
        else if (c < 0.70) p.add("type", {double(r.below(4))});
        else if (c < 0.78) p.add("par", {r.chance(0.1) ? 0 : r.chance(0.05) ? 1.0 : r.uni(0.5, 0.99), r.uni(0.05, 1), r.chance(0.1) ? 1.0 : r.uni(0.9, 1)});
        else if (c < 0.83) { double e[3] = {r.uni(0, 1), r.uni(0.05, 1), r.uni(0.8, 1)}; for (auto& q : e) if (r.chance(0.4)) q = r.chance(0.4) ? double(r.below(2)) : r.uni(-1, 2); p.add("par", {e[0], e[1], e[2]}); }
        else if (c < 0.87) p.add("gains", {r.logu(0.1, 5), r.logu(0.02, 1), r.chance(0.5) ? 0 : r.logu(0.01, 1)});
        else if (c < 0.90) p.add("bind");
        else if (c < 0.92) p.add("reset");
        else if (rev && c < 0.93) p.add("dir", {double(r.below(2))});
        else if (c < 0.95) p.add("mode", {double(r.below(2)), r.uni(-1, 1)});
        else if (flt && c < 0.97) p.add("idle", {std::floor(r.logu(5, 300))});
        else if (flt && r.chance(0.2)) p.add("nan", {});
    }
    if (r.chance(0.3)) p.add("dead", {r.logu(0.02, 1), double(r.below(4)), r.uni(0.05, 1), double(r.range(1, 60)), double(r.below(2))});
    if (r.chance(0.2)) p.add("tiny", {r.logu(1e-42, 1e-36), double(r.below(4)), r.uni(0.05, 1), double(r.range(1, 60)), r.logu(0.1, 10)});
    if (r.chance(0.5)) p.add("ident", {double(r.below(4)), r.uni(0.05, 1), r.uni(0.95, 1.0), double(r.next() >> 16), r.uni(5, 30), double(r.range(250, 700))});
}
void execTune(const Plan& p) {
    pidController* c = nullptr; pidAutoTuning* at = nullptr; Tri<TuneM> o; double K = 1, tau = 10, noise = 0, tau2 = 0, dt = 1, x1 = 0, x2 = 0, mem = 0, u = 0; bool on = false, bound = false, undef = true, complete = false, poisoned = false; long valid = 0, want = 0; int type = 1; double speed = 0.25; pidGains g{0, 0, 0};
    o.each([](auto& m) { (void)m; });
    auto same = [](pidGains a, pidGains b) { return memcmp(&a.Kc, &b.Kc, 4) == 0 && memcmp(&a.Ki, &b.Ki, 4) == 0 && memcmp(&a.Kd, &b.Kd, 4) == 0; };
    auto unchanged = [&](const char* when) { pidGains q = c->getGains(); if (!same(q, g)) fail("tune.early", "gains changed from (%g, %g, %g) to (%g, %g, %g) %s", double(g.Kc), double(g.Ki), double(g.Kd), double(q.Kc), double(q.Ki), double(q.Kd), when); };
    auto plant = [&](double ua) { x1 += (1 - std::exp(-dt / tau)) * (K * ua - x1); if (tau2 > 0) x2 += (1 - std::exp(-dt / tau2)) * (x1 - x2); else x2 = x1; };
    auto step = [&](float w, float y) {
        float uf = c->control(w, y); lib(); simtime(dt); observe(uf); u = uf;
        if (!bound) { unchanged("without a tuner bound"); return; }
        ++valid;
        bool now = c->isAutoTuningComplete();
        // reference: identification from the recorded input/output history
        bool wasDead = o.dead; double left0 = o.d.left; (void)left0;
        if (std::isfinite(uf) && std::isfinite(y) && !poisoned) {
            o.d.nd = 0; for (auto& m : o.n) m.nd = 0;
            o.each([&](auto& m) { m.step(uf, y, float(dt)); });
            bool tied = !(val(o.d.mag()) < 1e20) || o.d.ill;
            for (auto& m : o.n) { if (!(val(m.mag()) < 1e20)) tied = true; if (m.left != o.d.left) tied = true; }
            for (int i = 0; i < o.d.nd && !tied; ++i) { double q = 0; for (auto& m : o.n) q = std::max(q, std::fabs(m.dv[i] - o.d.dv[i])); if (std::fabs(o.d.dv[i]) <= 100 * q + 1e-5) tied = true; }
            // covariance dominated by rounding: the single-precision recursion is no longer the documented one
            for (auto& m : o.n) { auto off = [](Noisy a, double b) { return !(std::fabs(val(a) - b) <= 0.02 * std::fabs(b) + 1e-12); }; if (off(m.p00, o.d.p00) || off(m.p11, o.d.p11) || o.d.p00 <= 0 || o.d.p11 <= 0) tied = true; }
            if (tied && !o.dead) { o.dead = true; sh->skipped++; }
        } else { poisoned = true; o.dead = true; }
        if (complete) { unchanged("after completion"); if (!now) fail("tune.flag", "completion no longer reported"); return; }
        if (!now) { unchanged("before completion"); if (!wasDead && !o.dead && !undef && o.d.fired) fail("tune.late", "tuning not complete after %ld valid steps", want); if (!o.dead) { sh->compares++; } return; }
        if (undef) fail("tune.undef", "indefinite tuning reported completion");
        if (valid < want) fail("tune.soon", "tuning completed after %ld steps, %ld were requested", valid, want);
        complete = true; pidGains q = c->getGains(), e = at->getEstimates();
        if (!(std::isfinite(q.Kc) && std::isfinite(q.Ki) && std::isfinite(q.Kd))) fail("tune.finite", "gains (%g, %g, %g) installed at completion", double(q.Kc), double(q.Ki), double(q.Kd));
        if (!(std::isfinite(e.Kc) && std::isfinite(e.Ki) && std::isfinite(e.Kd))) { unchanged("although the estimates are not finite"); return; }
        if (!std::isfinite(e.Kc + e.Ki + e.Kd) && same(q, g)) return;      // at the edge of overflow the implementation may give up early
        g = q;
        auto near = [](double a, double b, double t) { return std::fabs(a - b) <= t * (std::fabs(b) + 1e-12); };
        if (!near(q.Kc, e.Kc, 1e-5) || !near(q.Ki, e.Ki, 1e-5) || !near(q.Kd, e.Kd, 1e-5)) fail("tune.swap", "gains (%g, %g, %g) differ from the estimates (%g, %g, %g) at completion", double(q.Kc), double(q.Ki), double(q.Kd), double(e.Kc), double(e.Ki), double(e.Kd));
        cover(121, uint64_t(type), uint64_t(bucket(q.Kc)), uint64_t(bucket(q.Ki)));
        if (!o.dead) {
            if (!o.d.fired) fail("tune.count", "completion reported while %g of %ld valid steps are left", o.d.left, want);
            double rk = std::fabs(val(o.d.k)), rt = std::fabs(val(o.d.tao)), dk = 0, dtau = 0; for (auto& m : o.n) { dk = std::max(dk, std::fabs(val(m.k) - o.d.k)); dtau = std::max(dtau, std::fabs(val(m.tao) - o.d.tao)); }
            double tol = 24 * (dk / (rk + 1e-30) + dtau / (rt + 1e-30)) + 2e-5;
            if (tol < 0.05 && rk > 1e-6 && rt > 1e-6 * dt && rt < 1e6 * dt) {
                double m[3]; rule(type, speed, val(o.d.k), val(o.d.tao), m); sh->compares++; if (tol < 2e-3) sh->tight++;
                if (!near(q.Kc, m[0], tol) || !near(q.Ki, m[1], 2 * tol) || !near(q.Kd, m[2], 2 * tol)) fail("tune.rule", "type %d: gains (%.7g, %.7g, %.7g), rule on the identified model (k=%.6g, tau=%.6g) gives (%.7g, %.7g, %.7g)", type, double(q.Kc), double(q.Ki), double(q.Kd), val(o.d.k), val(o.d.tao), m[0], m[1], m[2]);
                if (!(std::isfinite(q.Kc) && std::isfinite(q.Ki) && std::isfinite(q.Kd) && q.Kc > 0)) fail("tune.finite", "gains not finite at completion");
            } else sh->skipped++;
        }
    };
    auto bind = [&] { bool b = c->bindAutoTuning(*at); lib(); if (b != on) fail("tune.config", "binding returned %d", int(b)); if (b) { bound = true; undef = true; complete = false; poisoned = false; valid = 0; want = 0; speed = 0.25f; o.revive(); g = c->getGains(); o.each([&](auto& m) { m.bind(g.Kc, g.Ki, float(dt)); }); fault(F_RECONF); unchanged("by binding"); } };
    auto enable = [&](uint32_t n) { bool b = c->enableAutoTuning(n); lib(); if (b != bound) fail("tune.config", "enabling returned %d", int(b)); if (bound) { undef = n == 0; want = long(n); valid = 0; complete = false; o.each([&](auto& m) { m.left = n ? double(n) : -1; }); if (c->isAutoTuningComplete()) fail("tune.flag", "complete right after enabling"); unchanged("by enabling"); cover(120, n == 0, uint64_t(bucket(n))); } };
    auto par = [&](float mu, float sp, float la) { bool good = mu >= 0 && mu <= 1 && sp > 0 && sp <= 1 && la >= 0.8f && la <= 1; bool b = c->setAutoTuningParameters(mu, sp, la); lib(); if (!good) fault(F_BADCFG); if (b != (good && bound)) fail("tune.config", "parameters (%g, %g, %g) returned %d", double(mu), double(sp), double(la), int(b)); if (b) { speed = sp; o.each([&](auto& m) { using T = decltype(m.k); m.mu = T(mu); m.l = T(la); }); } };
    auto typ = [&](int t) { static const pidType T[4] = {pidType::PID_TYPE_P, pidType::PID_TYPE_PI, pidType::PID_TYPE_PD, pidType::PID_TYPE_PID}; bool b = c->setAutoTuningControllerType(T[t]); lib(); if (b != bound) fail("tune.config", "type returned %d", int(b)); if (b) type = t; };
    for (auto& s : p.s) {
        if (s.h == H("dirt")) { setDirt(int(s.n(0, 0, 4)), uint64_t(s.arg(1))); continue; }
        if (!c) { c = make<pidController>(); at = make<pidAutoTuning>(); }
        switch (s.h) {
            case H("setup"): if (on) break; dt = s.r(3, 1e-3, 1, 1); if (!c->setup(s.r(0, 1e-2, 100, 1), s.r(1, 1e-3, 100, 0.1), s.r(2, 0, 100, 0), float(dt))) fail("tune.config", "set-up rejected"); dt = float(dt); on = true; g = c->getGains(); break;
            case H("plant"): K = s.r(0, -100, 100, 1); if (std::fabs(K) < 0.01) K = 1; tau = s.r(1, 2, 1e3, 10) * dt; tau2 = s.arg(2) > 0 ? s.r(2, 0.05, 1, 0.1) * tau : 0; noise = s.r(3, 0, 1, 0); break;
            case H("sat"): if (on) c->setSaturation(s.r(0, -1e4, 0, 0), s.r(1, 0.5, 1e4, 100)); break;
            case H("bind"): bind(); break;
            case H("en"): enable(uint32_t(s.n(0, 0, 100000))); break;
            case H("type"): typ(int(s.n(0, 0, 3))); break;
            case H("par"): par(s.f(0), s.f(1), s.f(2)); break;
            case H("gains"): if (!on) break; c->setGains(s.r(0, 1e-2, 100, 1), s.r(1, 1e-3, 100, 0.1), s.r(2, 0, 100, 0)); g = c->getGains(); fault(F_RECONF); break;
            case H("reset"): if (!on) break; c->reset(); fault(F_RESET); unchanged("by a reset"); break;
            case H("dir"): if (!on) break; if (!c->setDirection(s.n(0, 0, 1) ? pidDirection::PID_BACKWARD : pidDirection::PID_FORWARD)) fail("tune.config", "direction rejected"); fault(F_RECONF); unchanged("by a change of direction"); break;
            case H("mode"): if (!on) break; c->setMode(s.n(0, 0, 1) ? pidMode::PID_MANUAL : pidMode::PID_AUTOMATIC); c->setManualInput(s.r(1, -10, 10, 0)); break;
            case H("run"): { if (!on) break; long n = s.n(0, 0, 2000); double w = s.r(1, -1e3, 1e3, 1); long per = s.n(2, 1, 100, 10); int kind = int(s.n(3, 0, 2)), fk = int(s.n(5, 0, 9)); double fa = s.r(6, 0, 10, 0.1) * std::fabs(w); Rng r(uint64_t(s.arg(4))); double cur = w;
                for (long i = 0; i < n; ++i) { if (kind == 1 && i % per == 0) cur = w * r.uni(-1, 1); if (kind == 2) cur = ((i / per) & 1) ? w : -w * 0.3; double y = faulty(r, fk, x2 + noise * std::fabs(w) * r.uni(-1, 1), mem, fa); if (!(std::fabs(y) < 1e6)) { x1 = x2 = 0; break; } step(float(cur), float(y)); plant(std::isfinite(u) ? u : 0); } break; }
            case H("idle"): { if (!on) break; fault(F_IDLE); c->setMode(pidMode::PID_MANUAL); c->setManualInput(0); long n = s.n(0, 0, 2000); while (n--) { step(0, float(x2)); plant(std::isfinite(u) ? u : 0); } c->setMode(pidMode::PID_AUTOMATIC); break; }
            case H("nan"): if (!on) break; fault(F_NAN); step(1, NAN); poisoned = true; o.dead = true; c->reset(); break;
            case H("dead"): {      // dead process and no proportional gain: the model has zero gain, so it is never physically valid
                if (!on) break;
                fault(F_STUCK); c->setMode(s.n(4, 0, 1) ? pidMode::PID_MANUAL : pidMode::PID_AUTOMATIC); c->setManualInput(0); c->setSaturation(-100, 100); c->reset(); if (!c->setGains(0.0f, s.r(0, 1e-3, 10, 0.1), 0.0f)) fail("tune.config", "gains rejected"); x1 = x2 = 0;
                g = c->getGains(); bind(); typ(int(s.n(1, 0, 3))); par(0.95f, s.r(2, 0.05, 1, 0.25), 0.99f); long n = s.n(3, 1, 60, 10); enable(uint32_t(n)); o.dead = true;
                for (long i = 0; i < n + 5; ++i) { step(0, 0); if (u != 0) break; if (complete) fail("tune.invalid", "tuning completed on a process identified with zero gain"); }
                c->setMode(pidMode::PID_AUTOMATIC); cover(123, uint64_t(n));
                break;
            }
            case H("tiny"): {      // signals of no magnitude and a model so small that the rule overflows: only finite gains may be installed
                if (!on) break;
                fault(F_DENORM); float kc = s.r(0, 1e-44, 1e-30, 1e-38); c->setMode(pidMode::PID_AUTOMATIC); c->setManualInput(0); c->setSaturation(-100, 100); c->reset(); if (!c->setGains(kc, s.r(4, 0.01, 10, 1) * kc, 0.0f)) fail("tune.config", "gains rejected"); x1 = x2 = 0;
                g = c->getGains(); bind(); typ(int(s.n(1, 0, 3))); par(0.95f, s.r(2, 0.05, 1, 0.25), 0.99f); long n = s.n(3, 1, 60, 10); enable(uint32_t(n)); o.dead = true;
                for (long i = 0; i < n + 5; ++i) { step(0, 0); if (!std::isfinite(u)) break; }
                cover(124, complete, uint64_t(bucket(double(c->getGains().Kc)))); u = 0; c->setGains(1.0f, 0.1f, 0.0f); g = c->getGains();
                break;
            }
            case H("ident"): {
                if (!on) break;
                // excited, noise-free first-order process: the tuned gains follow from its true parameters
                K = std::fabs(K); int t = int(s.n(0, 0, 3)); double sp = s.r(1, 0.05, 1, 0.25); float la = s.r(2, 0.95, 1, 0.99); Rng r(uint64_t(s.arg(3))); tau2 = 0; noise = 0; x1 = x2 = 0; double T = s.r(4, 5, 30, 10); tau = T * dt; long n = s.n(5, 250, 2000, 400);
                c->setup(0.5f / float(K), 0.05f / float(K * dt), 0, float(dt)); c->setSaturation(-100, 100); g = c->getGains(); bind(); typ(t); par(0.95f, float(sp), la); enable(uint32_t(n));
                double w = 0; long i = 0;
                for (; i < n + 400 && !complete; ++i) { if (i % 9 == 0) w = K * r.uni(-40, 40); step(float(w), float(x2)); plant(u); }
                if (!complete) fail("tune.live", "tuning an excited process did not complete within %ld steps", n + 400);
                double m[3]; rule(t, sp, K, tau, m); pidGains q = c->getGains(); double tol = 0.03;
                cover(122, uint64_t(t)); sh->compares++;
                auto near = [&](double a, double b) { return std::fabs(a - b) <= tol * std::fabs(b) + 1e-9; };
                if (!near(q.Kc, m[0]) || !near(q.Ki, m[1]) || !near(q.Kd, m[2])) fail("tune.accuracy", "type %d: gains (%.6g, %.6g, %.6g), rule at the true process (K=%g, tau=%g) gives (%.6g, %.6g, %.6g)", t, double(q.Kc), double(q.Ki), double(q.Kd), K, tau, m[0], m[1], m[2]);
                break;
            }
            default: break;
        }
    }
}
Reg r5("P05", genTune, execTune);
} // namespace
