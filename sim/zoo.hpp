// The zoo: every component of the library behind one small interface, with its configuration kept outside the object.
#pragma once
#include "core.hpp"
#include <qlibs.h>
#include <include/mat.hpp>
#include <include/algorithm.hpp>
#include <algorithm>
#include <memory>

namespace zoo {
using namespace sim;
using namespace qlibs;

// Library code runs inside In: preemption and crashes are only delivered there.
struct In { In() { seam.armed = 1; } ~In() { seam.armed = 0; } };
template <class F> inline auto call(F f) -> decltype(f()) { lib(); In in; return f(); }

struct Bad { const char* what; bool accepted; };
// tells whether a configuration call was accepted
#define TRY(what, expr) do { ++this->tries; if (i-- == 0) return Bad{what, call([&] { return (expr); })}; } while (0)

struct Agent {
    std::vector<uint32_t> log;
    std::vector<std::pair<void*, size_t>> mem;
    bool configOk = true;                                   // every valid configuration call so far reported success
    float bv = 0.3f;                                        // picks the value of invalid arguments
    float neg() const { return bv > 0.95f ? -__builtin_inff() : -float(std::pow(10.0, -5 + 8 * double(bv))); }
    float over(double lim) const { return bv > 0.95f ? __builtin_inff() : float(lim * (1 + std::pow(10.0, -5 + 8 * double(bv)))); }
    const char* badCfg = "";
    int tries = 0; int preCount() { tries = 0; pre(-1); return tries; } int badCount() { tries = 0; bad(-1); return tries; }      // how many calls of a kind there are (an index of -1 makes none)
    virtual ~Agent() {}
    void out(float v) { uint32_t b; memcpy(&b, &v, 4); if (v != v) b = 0x7FC00000u; log.push_back(b); observe(uint64_t(b)); }
    void outu(uint32_t v) { log.push_back(v); observe(uint64_t(v)); }
    void ok(const char* w, bool r) { if (!r && configOk) { configOk = false; badCfg = w; } }
    template <class T> T* get(size_t n) { T* p = arr<T>(n); mem.push_back({p, n * sizeof(T)}); return p; }
    void dirtyAll() { for (auto& m : mem) dirty(m.first, m.second); }
    virtual const char* name() const = 0;
    virtual void allocObj() = 0;                            // memory of the object
    virtual void allocBuf() {}                              // memory of its buffers
    void alloc() { allocObj(); allocBuf(); }
    virtual void construct() = 0;                           // object created (over whatever the memory holds)
    virtual void setup() = 0;                               // complete configuration, from the configuration record
    virtual void reset() { setup(); }                       // the documented way to start again
    virtual void sync() {}                                  // configuration the library itself changed (tuned gains)
    virtual void step(int code, float v, float w) = 0;      // code 0 sample; others reconfigure inside the valid domain
    virtual Bad bad(int) { return {nullptr, false}; }       // i-th invalid configuration call; what == null: no such
    virtual Bad pre(int) { return {nullptr, false}; }       // i-th configuration call on an object not set up
    virtual bool rebuild() const { return false; }          // no set-up call: only re-creation
    virtual std::unique_ptr<Agent> twin() const = 0;        // same configuration record, nothing else
    virtual void renew(Rng&) = 0;                           // another configuration for the same object, with new buffers
    bool lazy = false;                                      // rely on the defaults set-up establishes instead of setting every value
};
template <class D> struct Base : Agent {
    void renew(Rng& r) override {
        D& me = static_cast<D&>(*this); D q(r); q.lazy = r.chance(0.5); q.log = std::move(log); q.mem = std::move(mem); q.configOk = configOk; q.badCfg = badCfg; q.keep(me); me = q; me.allocBuf(); me.constructBuf();
    }
    void constructBuf() {}
    std::unique_ptr<Agent> twin() const override { auto* d = new D(static_cast<const D&>(*this)); d->log.clear(); d->mem.clear(); d->configOk = true; return std::unique_ptr<Agent>(d); }
};
inline double u01(float v) { double a = std::fabs(double(v)); if (!(a < 1e9)) a = 0.37; return a - std::floor(a); }   // any value -> [0,1)
inline float in(float v, double lo, double hi) { return float(lo + (hi - lo) * (0.02 + 0.96 * u01(v))); }
const float QNAN = __builtin_nanf("");

// ------------------------------------------------------------------ PID with auto-tuning and model reference
struct Pid : Base<Pid> {
    float kc, ki, kd, dt, lo = 0, hi = 100, man = 0, kw = 1, kt = 1, b = 1, cw = 0, beta = 0.98f, eps, gam = 0.5f, alp = 0.01f, mu = 0.95f, sp = 0.25f, lam = 0.9898f;
    int mode = 0, dir = 0, im = 1, dm = 0, type = 1; uint32_t N = 0; bool mrc = false, tun = false;
    pidController* p = nullptr; pidAutoTuning* t = nullptr; float* ref = nullptr;
    explicit Pid(Rng& r) {
        kc = float(r.uni(0.1, 5)); ki = float(r.uni(0.05, 3)); kd = float(r.uni(0, 1)); dt = float(r.logu(0.001, 1)); eps = r.chance(0.5) ? 1.17549435e-38f : float(r.uni(0, 0.1));
        if (r.chance(0.6)) { lo = float(r.uni(-50, 0)); hi = lo + float(r.logu(0.1, 100)); }
        if (r.chance(0.3)) mode = 1; if (r.chance(0.4)) man = float(r.uni(-5, 5)); if (r.chance(0.4)) { kw = float(r.uni(0, 3)); kt = float(r.uni(0, 3)); }
        if (r.chance(0.4)) { b = float(r.uni(0, 1)); cw = float(r.uni(0, 1)); } if (r.chance(0.5)) beta = float(r.uni(0, 0.99)); dir = r.chance(0.3); im = int(r.below(4)); dm = int(r.below(3));
        mrc = r.chance(0.35); if (mrc) { gam = float(r.uni(0.1, 2)); alp = float(r.uni(0.01, 1)); }
        tun = r.chance(0.45); type = int(r.below(4)); if (tun && r.chance(0.7)) N = 1 + r.below(30); if (r.chance(0.4)) { mu = float(r.uni(0, 1)); sp = float(r.uni(0.05, 1)); lam = float(r.uni(0.8, 1)); }
    }
    const char* name() const override { return "pid"; }
    void allocObj() override { p = get<pidController>(1); t = get<pidAutoTuning>(1); ref = get<float>(1); }
    void keep(const Pid& o) { p = o.p; t = o.t; ref = o.ref; }
    void construct() override { call([&] { new (p) pidController; new (t) pidAutoTuning; return 0; }); *ref = 0; }
    void tune() {
        if (tun) {
            ok("bindAutoTuning", call([&] { return p->bindAutoTuning(*t); })); ok("setAutoTuningParameters", call([&] { return p->setAutoTuningParameters(mu, sp, lam); }));
            ok("setAutoTuningControllerType", call([&] { return p->setAutoTuningControllerType(pidType(type)); })); ok("enableAutoTuning", call([&] { return p->enableAutoTuning(N); }));
        } else call([&] { return p->unbindAutoTuning(); });
    }
    void setup() override {
        ok("pid.setup", call([&] { return p->setup(kc, ki, kd, dt); }));
        bool all = !lazy;                                   // values setup() itself establishes need not be set again
        if (all || lo != 0 || hi != 100) ok("setSaturation", call([&] { return p->setSaturation(lo, hi); })); if (all || mode) ok("setMode", call([&] { return p->setMode(pidMode(mode)); })); if (all || man != 0) ok("setManualInput", call([&] { return p->setManualInput(man); }));
        if (all || kw != 1 || kt != 1) ok("setExtraGains", call([&] { return p->setExtraGains(kw, kt); })); if (all || b != 1 || cw != 0) ok("setReferenceWeighting", call([&] { return p->setReferenceWeighting(b, cw); })); if (all || beta != 0.98f) ok("setDerivativeFilter", call([&] { return p->setDerivativeFilter(beta); }));
        if (all || eps != 1.17549435e-38f) ok("setEpsilon", call([&] { return p->setEpsilon(eps); })); if (all || dir) ok("setDirection", call([&] { return p->setDirection(pidDirection(dir)); }));
        call([&] { p->setIntegrationMethod(integrationMethod(im)); p->setDerivationMethod(derivationMethod(dm)); return 0; });
        if (mrc) ok("setModelReferenceControl", call([&] { return p->setModelReferenceControl(*ref, gam, alp); })); else ok("removeModelReferenceControl", call([&] { return p->removeModelReferenceControl(); }));
        tune();
    }
    void reset() override { ok("pid.reset", call([&] { return p->reset(); })); tune(); }
    void sync() override { pidGains g = p->getGains(); kc = g.Kc; ki = g.Ki; kd = g.Kd; }
    void step(int code, float v, float w) override {
        switch (code) {
            case 1: kc = in(v, 0, 5); ki = in(w, 0, 3); kd = in(v * 7, 0, 1); ok("setGains", call([&] { return p->setGains(kc, ki, kd); })); break;
            case 2: lo = in(v, -50, 10); hi = lo + in(w, 0.01, 100); ok("setSaturation", call([&] { return p->setSaturation(lo, hi); })); break;
            case 3: mode = u01(v) < 0.5; ok("setMode", call([&] { return p->setMode(pidMode(mode)); })); break;
            case 4: man = in(v, -5, 5); ok("setManualInput", call([&] { return p->setManualInput(man); })); break;
            case 5: b = in(v, 0, 1); cw = in(w, 0, 1); ok("setReferenceWeighting", call([&] { return p->setReferenceWeighting(b, cw); })); break;
            case 6: beta = in(v, 0, 1); kw = in(w, 0, 3); ok("setDerivativeFilter", call([&] { return p->setDerivativeFilter(beta); })); ok("setExtraGains", call([&] { return p->setExtraGains(kw, kt); })); break;
            case 7: dir = u01(v) < 0.5; ok("setDirection", call([&] { return p->setDirection(pidDirection(dir)); })); break;
            default:
                *ref = 0.5f * v;
                out(call([&] { return p->control(v, w); }));
                { pidGains g = call([&] { return p->getGains(); }); out(g.Kc); out(g.Ki); out(g.Kd); outu(call([&] { return p->isAutoTuningComplete(); })); if (tun) { pidGains e = call([&] { return t->getEstimates(); }); out(e.Kc); out(e.Ki); out(e.Kd); } }
                cover(H("pid"), uint64_t(mode * 4 + mrc * 2 + tun), uint64_t(bucket(v) + 100), uint64_t(bucket(w) + 100));
        }
    }
    Bad bad(int i) override {
        TRY("setup(dT=0)", p->setup(1, 1, 1, 0)); TRY("setup(dT<0)", p->setup(1, 1, 1, neg())); TRY("setup(dT=nan)", p->setup(2, 2, 2, QNAN));
        TRY("setSaturation(max<min)", p->setSaturation(float(u01(bv) * 40 - 20), float(u01(bv) * 40 - 20) + neg())); TRY("setSaturation(max==min)", p->setSaturation(float(u01(bv) * 40 - 20), float(u01(bv) * 40 - 20))); TRY("setSaturation(nan)", p->setSaturation(QNAN, 1)); TRY("setSaturation(.,nan)", p->setSaturation(0, QNAN));
        TRY("setDerivativeFilter(1)", p->setDerivativeFilter(1)); TRY("setDerivativeFilter(-0.1)", p->setDerivativeFilter(neg())); TRY("setDerivativeFilter(nan)", p->setDerivativeFilter(QNAN)); TRY("setDerivativeFilter(7)", p->setDerivativeFilter(over(1)));
        TRY("setDerivativeFilterTimeConstant(-1)", p->setDerivativeFilterTimeConstant(neg())); TRY("setDerivativeFilterTimeConstant(nan)", p->setDerivativeFilterTimeConstant(QNAN));
        TRY("setModelReferenceControl(gamma=0)", p->setModelReferenceControl(*ref, 0.f, 0.1f)); TRY("setModelReferenceControl(gamma<0)", p->setModelReferenceControl(*ref, neg(), 0.1f)); TRY("setModelReferenceControl(alpha=0)", p->setModelReferenceControl(*ref, 0.5f, 0.f)); TRY("setModelReferenceControl(alpha<0)", p->setModelReferenceControl(*ref, 0.5f, neg()));
        if (tun) {
            TRY("setAutoTuningParameters(mu<0)", p->setAutoTuningParameters(neg(), 0.5f, 0.9f)); TRY("setAutoTuningParameters(mu>1)", p->setAutoTuningParameters(over(1), 0.5f, 0.9f)); TRY("setAutoTuningParameters(alpha=0)", p->setAutoTuningParameters(0.9f, 0.f, 0.9f));
            TRY("setAutoTuningParameters(alpha>1)", p->setAutoTuningParameters(0.9f, over(1), 0.9f)); TRY("setAutoTuningParameters(lambda<0.8)", p->setAutoTuningParameters(0.9f, 0.5f, float(0.7999 * u01(bv)))); TRY("setAutoTuningParameters(lambda>1)", p->setAutoTuningParameters(0.9f, 0.5f, over(1)));
        } else {
            TRY("enableAutoTuning(unbound)", p->enableAutoTuning(5)); TRY("setAutoTuningParameters(unbound)", p->setAutoTuningParameters(0.9f, 0.5f, 0.9f)); TRY("setAutoTuningControllerType(unbound)", p->setAutoTuningControllerType(pidType::PID_TYPE_PID));
            TRY("unbindAutoTuning(unbound)", p->unbindAutoTuning()); TRY("isAutoTuningComplete(unbound)", p->isAutoTuningComplete());
        }
        return {nullptr, false};
    }
    Bad pre(int i) override {
        TRY("setGains", p->setGains(1, 1, 1)); TRY("setParams", p->setParams(1, 1, 1)); TRY("setSaturation", p->setSaturation(0, 1)); TRY("setSeries", p->setSeries()); TRY("setEpsilon", p->setEpsilon(0.1f)); TRY("setMode", p->setMode(pidMode::PID_MANUAL));
        TRY("setDerivativeFilter", p->setDerivativeFilter(0.5f)); TRY("setDerivativeFilterTimeConstant", p->setDerivativeFilterTimeConstant(0.5f)); TRY("setDirection", p->setDirection(pidDirection::PID_BACKWARD)); TRY("setManualInput", p->setManualInput(2)); TRY("setExtraGains", p->setExtraGains(1, 1));
        TRY("setReferenceWeighting", p->setReferenceWeighting(1, 1)); TRY("reset", p->reset()); TRY("setModelReferenceControl", p->setModelReferenceControl(*ref)); TRY("removeModelReferenceControl", p->removeModelReferenceControl()); TRY("bindAutoTuning", p->bindAutoTuning(*t));
        TRY("enableAutoTuning", p->enableAutoTuning(3)); TRY("setAutoTuningParameters", p->setAutoTuningParameters(0.9f, 0.5f, 0.9f)); TRY("setAutoTuningControllerType", p->setAutoTuningControllerType(pidType::PID_TYPE_P)); TRY("setGains(struct)", p->setGains(pidGains{1, 2, 3})); TRY("setup(dT<0)", p->setup(1, 1, 1, -1));
        return {nullptr, false};
    }
};

// ------------------------------------------------------------------ smoothers
template <class D, class S> struct Smooth : Base<D> {
    S* s = nullptr;
    void allocObj() override { s = this->template get<S>(1); } void keep(const D& o) { s = o.s; }
    void construct() override { call([&] { new (s) S; return 0; }); }
    void reset() override { this->ok("smoother.reset", call([&] { return s->reset(); })); }
    virtual void retune(float, float) = 0;
    void step(int code, float v, float w) override {
        if (code == 1) { retune(v, w); this->setup(); return; }
        if (code == 2) { reset(); return; }
        this->out(call([&] { return s->smooth(v); })); cover(H(this->name()), uint64_t(bucket(v) + 100));
    }
};
struct Lpf1 : Smooth<Lpf1, smootherLPF1> {
    float a; explicit Lpf1(Rng& r) : a(float(r.uni(0.01, 0.99))) {}
    const char* name() const override { return "LPF1"; } void retune(float v, float) override { a = in(v, 0, 1); }
    void setup() override { ok("LPF1.setup", call([&] { return s->setup(a); })); }
    Bad bad(int i) override { TRY("LPF1(0)", s->setup(0)); TRY("LPF1(1)", s->setup(1)); TRY("LPF1(-1)", s->setup(neg())); TRY("LPF1(2)", s->setup(over(1))); TRY("LPF1(nan)", s->setup(QNAN)); return {nullptr, false}; }
};
struct Lpf2 : Smooth<Lpf2, smootherLPF2> {
    float a; explicit Lpf2(Rng& r) : a(float(r.uni(0.01, 0.99))) {}
    const char* name() const override { return "LPF2"; } void retune(float v, float) override { a = in(v, 0, 1); }
    void setup() override { ok("LPF2.setup", call([&] { return s->setup(a); })); }
    Bad bad(int i) override { TRY("LPF2(0)", s->setup(0)); TRY("LPF2(1)", s->setup(1)); TRY("LPF2(-1)", s->setup(neg())); TRY("LPF2(2)", s->setup(over(1))); TRY("LPF2(nan)", s->setup(QNAN)); return {nullptr, false}; }
};
struct Expw : Smooth<Expw, smootherEXPW> {
    float a; explicit Expw(Rng& r) : a(float(r.uni(0.01, 0.99))) {}
    const char* name() const override { return "EXPW"; } void retune(float v, float) override { a = in(v, 0, 1); }
    void setup() override { ok("EXPW.setup", call([&] { return s->setup(a); })); }
    Bad bad(int i) override { TRY("EXPW(0)", s->setup(0)); TRY("EXPW(1)", s->setup(1)); TRY("EXPW(-1)", s->setup(neg())); TRY("EXPW(2)", s->setup(over(1))); TRY("EXPW(nan)", s->setup(QNAN)); return {nullptr, false}; }
};
struct Klmn : Smooth<Klmn, smootherKLMN> {
    float q, r_, p; explicit Klmn(Rng& r) : q(float(r.logu(1e-3, 10))), r_(float(r.logu(1e-3, 10))), p(float(r.logu(1e-2, 100))) {}
    const char* name() const override { return "KLMN"; } void retune(float v, float w) override { q = in(v, 0.01, 10); r_ = in(w, 0.01, 10); p = in(v * 3, 0.1, 50); }
    void setup() override { ok("KLMN.setup", call([&] { return s->setup(q, r_, p); })); }
    Bad bad(int i) override { TRY("KLMN(0,1,1)", s->setup(0, 1, 1)); TRY("KLMN(1,0,1)", s->setup(1, 0, 1)); TRY("KLMN(1,1,0)", s->setup(1, 1, 0)); TRY("KLMN(-1,1,1)", s->setup(neg(), 1, 1)); TRY("KLMN(1,-1,1)", s->setup(1, neg(), 1)); TRY("KLMN(1,1,-1)", s->setup(1, 1, neg())); TRY("KLMN(nan,1,1)", s->setup(QNAN, 1, 1)); TRY("KLMN(1,1,nan)", s->setup(1, 1, QNAN)); return {nullptr, false}; }
};
struct Desf : Smooth<Desf, smootherDESF> {
    float a, b; size_t n; explicit Desf(Rng& r) : a(float(r.uni(0.05, 0.95))), b(float(r.uni(0.05, 0.95))), n(r.below(10)) {}
    const char* name() const override { return "DESF"; } void retune(float v, float w) override { a = in(v, 0, 1); b = in(w, 0, 1); }
    void setup() override { ok("DESF.setup", call([&] { return s->setup(a, b, n); })); }
    Bad bad(int i) override { TRY("DESF(0,.5)", s->setup(0, 0.5f, 3)); TRY("DESF(1,.5)", s->setup(1, 0.5f, 3)); TRY("DESF(.5,0)", s->setup(0.5f, 0, 3)); TRY("DESF(.5,1)", s->setup(0.5f, 1, 3)); TRY("DESF(-1,.5)", s->setup(neg(), 0.5f, 3)); TRY("DESF(.5,2)", s->setup(0.5f, over(1), 3)); TRY("DESF(nan,.5)", s->setup(QNAN, 0.5f, 3)); TRY("DESF(>1,.5)", s->setup(over(1), 0.5f, 3)); TRY("DESF(.5,<0)", s->setup(0.5f, neg(), 3)); return {nullptr, false}; }
};
template <class D, class S> struct Win : Smooth<D, S> {
    size_t n; float* w = nullptr; float a;
    explicit Win(Rng& r) : n(1 + r.below(r.chance(0.3) ? 3 : 20)), a(float(r.uni(0.05, 0.95))) {}
    void allocBuf() override { w = this->template get<float>(n); }
    void retune(float v, float) override { a = in(v, 0, 1); }
};
struct Mwm1 : Win<Mwm1, smootherMWM1> {
    using Win::Win; const char* name() const override { return "MWM1"; } void setup() override { ok("MWM1.setup", call([&] { return s->setup(w, n); })); }
    Bad bad(int i) override { TRY("MWM1(null)", s->setup(nullptr, n)); TRY("MWM1(0)", s->setup(w, 0)); TRY("MWM1(null,0)", s->setup(nullptr, 0)); return {nullptr, false}; }
};
struct Mwm2 : Win<Mwm2, smootherMWM2> {
    using Win::Win; const char* name() const override { return "MWM2"; } void setup() override { ok("MWM2.setup", call([&] { return s->setup(w, n); })); }
    Bad bad(int i) override { TRY("MWM2(null)", s->setup(nullptr, n)); TRY("MWM2(0)", s->setup(w, 0)); TRY("MWM2(null,0)", s->setup(nullptr, 0)); return {nullptr, false}; }
};
struct Mor1 : Win<Mor1, smootherMOR1> {
    using Win::Win; const char* name() const override { return "MOR1"; } void setup() override { ok("MOR1.setup", call([&] { return s->setup(w, n, a); })); }
    Bad bad(int i) override { TRY("MOR1(null)", s->setup(nullptr, n, 0.5f)); TRY("MOR1(0)", s->setup(w, 0, 0.5f)); TRY("MOR1(a=0)", s->setup(w, n, 0)); TRY("MOR1(a=1)", s->setup(w, n, 1)); TRY("MOR1(a<0)", s->setup(w, n, neg())); TRY("MOR1(a>1)", s->setup(w, n, over(1))); TRY("MOR1(nan)", s->setup(w, n, QNAN)); return {nullptr, false}; }
};
struct Mor2 : Win<Mor2, smootherMOR2> {
    using Win::Win; const char* name() const override { return "MOR2"; } void setup() override { ok("MOR2.setup", call([&] { return s->setup(w, n, a); })); }
    Bad bad(int i) override { TRY("MOR2(null)", s->setup(nullptr, n, 0.5f)); TRY("MOR2(0)", s->setup(w, 0, 0.5f)); TRY("MOR2(a=0)", s->setup(w, n, 0)); TRY("MOR2(a=1)", s->setup(w, n, 1)); TRY("MOR2(a<0)", s->setup(w, n, neg())); TRY("MOR2(a>1)", s->setup(w, n, over(1))); TRY("MOR2(nan)", s->setup(w, n, QNAN)); return {nullptr, false}; }
};
struct Gmwf : Win<Gmwf, smootherGMWF> {
    float* k = nullptr; float sg, c; explicit Gmwf(Rng& r) : Win(r), sg(float(r.uni(0.3, 5))), c(float(r.uni(0, double(n) - 0.01))) {}
    void allocBuf() override { Win::allocBuf(); k = get<float>(n); }
    const char* name() const override { return "GMWF"; } void retune(float v, float) override { sg = in(v, 0.3, 5); } void setup() override { ok("GMWF.setup", call([&] { return s->setup(sg, c, w, k, n); })); }
    Bad bad(int i) override { TRY("GMWF(sg=0)", s->setup(0, c, w, k, n)); TRY("GMWF(sg<0)", s->setup(neg(), c, w, k, n)); TRY("GMWF(c=n)", s->setup(1, float(n), w, k, n)); TRY("GMWF(c>n)", s->setup(1, over(double(n)), w, k, n)); TRY("GMWF(null)", s->setup(1, 0, nullptr, k, n)); TRY("GMWF(0)", s->setup(1, 0, w, k, 0)); TRY("GMWF(nan)", s->setup(QNAN, 0, w, k, n)); return {nullptr, false}; }
};
struct Alnf : Win<Alnf, smootherALNF> {
    float *k = nullptr, *k1 = nullptr; float m; explicit Alnf(Rng& r) : Win(r), m(r.chance(0.4) ? 0 : float(r.uni(0, 0.95))) {}
    void allocBuf() override { Win::allocBuf(); k = get<float>(n); k1 = get<float>(n); }
    const char* name() const override { return "ALNF"; } void setup() override { ok("ALNF.setup", call([&] { return s->setup(a, m, n, w, k, m > 0 ? k1 : nullptr); })); }
    Bad bad(int i) override { TRY("ALNF(a=0)", s->setup(0, 0.1f, n, w, k, k1)); TRY("ALNF(a=1)", s->setup(1, 0.1f, n, w, k, k1)); TRY("ALNF(a<0)", s->setup(neg(), 0.1f, n, w, k, k1)); TRY("ALNF(m=1)", s->setup(0.5f, 1, n, w, k, k1)); TRY("ALNF(m<0)", s->setup(0.5f, neg(), n, w, k, k1)); TRY("ALNF(null)", s->setup(0.5f, 0.1f, n, nullptr, k, k1)); TRY("ALNF(0)", s->setup(0.5f, 0.1f, 0, w, k, k1)); TRY("ALNF(nan)", s->setup(QNAN, 0.1f, n, w, k, k1)); TRY("ALNF(m=nan)", s->setup(0.5f, QNAN, n, w, k, k1)); TRY("ALNF(a>1)", s->setup(over(1), 0.1f, n, w, k, k1)); TRY("ALNF(m>1)", s->setup(0.5f, over(1), n, w, k, k1)); return {nullptr, false}; }
};
// ------------------------------------------------------------------ RMS
struct Rms : Base<Rms> {
    rms* s = nullptr; size_t n; float l = 0.99f, a = 0.75f, *w = nullptr; bool prm;
    explicit Rms(Rng& r) : n(1 + r.below(16)) { prm = r.chance(0.6); if (prm) { l = float(r.uni(0.5, 1)); a = float(r.uni(0.1, 1)); } }
    const char* name() const override { return "rms"; } void allocObj() override { s = get<rms>(1); } void allocBuf() override { w = get<float>(n); } void keep(const Rms& o) { s = o.s; } void construct() override { call([&] { new (s) rms; return 0; }); }
    void setup() override { ok("rms.setup", call([&] { return s->setup(w, n); })); if (prm) ok("rms.setParams", call([&] { return s->setParams(l, a); })); }
    void step(int code, float v, float u) override {
        if (code == 1) { l = in(v, 0.5, 1); a = in(u, 0.1, 1); prm = true; ok("rms.setParams", call([&] { return s->setParams(l, a); })); return; }
        out(call([&] { return s->update(v); })); cover(H("rms"), uint64_t(bucket(v) + 100));
    }
    Bad bad(int i) override { TRY("rms(null)", s->setup(nullptr, n)); TRY("rms(0)", s->setup(w, 0)); TRY("setParams(0,.5)", s->setParams(0, 0.5f)); TRY("setParams(.5,0)", s->setParams(0.5f, 0)); TRY("setParams(1.1,.5)", s->setParams(over(1), 0.5f)); TRY("setParams(.5,1.1)", s->setParams(0.5f, over(1))); TRY("setParams(-1,.5)", s->setParams(neg(), 0.5f)); TRY("setParams(nan,.5)", s->setParams(QNAN, 0.5f)); TRY("setParams(.5,nan)", s->setParams(0.5f, QNAN)); TRY("setParams(.5,<0)", s->setParams(0.5f, neg())); return {nullptr, false}; }
};
// ------------------------------------------------------------------ delay lines
struct Tdl : Base<Tdl> {
    tdl* s = nullptr; size_t n; float iv, *w = nullptr; bool useFlush;
    explicit Tdl(Rng& r) : n(1 + r.below(16)), iv(float(r.uni(-5, 5))), useFlush(r.chance(0.5)) {}
    const char* name() const override { return "tdl"; } void allocObj() override { s = get<tdl>(1); } void allocBuf() override { w = get<float>(n); } void keep(const Tdl& o) { s = o.s; } void construct() override { call([&] { new (s) tdl; return 0; }); }
    void setup() override { call([&] { s->setup(w, n, iv); return 0; }); } void reset() override { call([&] { s->flush(iv); return 0; }); }
    void step(int code, float v, float) override {
        if (code == 1) { iv = in(v, -5, 5); call([&] { s->flush(iv); return 0; }); return; }
        call([&] { s->insertSample(v); return 0; });
        for (size_t i = 0; i < n; ++i) out(call([&] { return (*s)[int(i)]; }));
        size_t k = size_t(u01(v) * double(n)); out(call([&] { return s->getAtIndex(k); })); out(call([&] { return s->getOldest(); })); out(call([&] { return s->getRecent(); })); out(call([&] { return (*s)[-1]; })); out(call([&] { return (*s)[int(n)]; })); out(call([&] { return (*s)[int(n) + 1000]; })); out(call([&] { return (*s)[-2]; }));
        cover(H("tdl"), n, uint64_t(bucket(v) + 100));
    }
};
template <size_t N> struct Tdelay : Base<Tdelay<N>> {
    transportDelay<N>* s = nullptr; float iv; explicit Tdelay(Rng& r) : iv(float(r.uni(-5, 5))) {}
    const char* name() const override { return "transportDelay"; } void allocObj() override { s = this->template get<transportDelay<N>>(1); } void keep(const Tdelay& o) { s = o.s; } void construct() override { call([&] { new (s) transportDelay<N>(iv); return 0; }); }
    void setup() override {} void reset() override { construct(); } bool rebuild() const override { return true; }
    void step(int, float v, float) override { this->out(call([&] { return (*s)(v); })); cover(H("transportDelay"), N, uint64_t(bucket(v) + 100)); }
};
// ------------------------------------------------------------------ LTI systems
template <class D, class S> struct Lti : Base<D> {
    S* s = nullptr; std::vector<float> num, den, xi; size_t nd = 0; float lo = 0, hi = 0, div = 0, *bn = nullptr, *bd = nullptr, *dl = nullptr; bool sat = false, init = false;
    void common(Rng& r, size_t n) {
        if (r.chance(0.4)) nd = 1 + r.below(6); div = float(r.uni(-3, 3)); sat = r.chance(0.5); lo = float(r.uni(-20, 0)); hi = lo + float(r.uni(0.1, 40));
        init = r.chance(0.5); for (size_t i = 0; i < n; ++i) xi.push_back(float(r.uni(-2, 2)));
    }
    void coef() { memcpy(bn, num.data(), num.size() * 4); memcpy(bd, den.data(), den.size() * 4); }
    void after() {
        if (!this->lazy || init) this->ok("setInitStates", call([&] { return s->setInitStates(init ? xi.data() : nullptr); })); if (nd) this->ok("setDelay", call([&] { return s->setDelay(dl, nd, div); })); if (sat) this->ok("setSaturation", call([&] { return s->setSaturation(lo, hi); }));
    }
    void keep(const D& o) { s = o.s; sat |= o.sat; if (o.nd && !nd) nd = 1; }      // limits and delay, once set, can only be replaced
    void allocCommon() { bn = this->template get<float>(num.size()); bd = this->template get<float>(den.size()); if (nd) dl = this->template get<float>(nd); }
    void reset() override { this->ok("setInitStates", call([&] { return s->setInitStates(init ? xi.data() : nullptr); })); if (nd) this->ok("setDelay", call([&] { return s->setDelay(dl, nd, div); })); }
    void sampled(float v) { this->out(call([&] { return s->excite(v); })); cover(H(this->name()), num.size() * 8 + den.size(), uint64_t(bucket(v) + 100), nd * 2 + sat); }
};
struct Disc : Lti<Disc, discreteSystem> {
    float* x = nullptr;
    explicit Disc(Rng& r) {
        size_t nb = 1 + r.below(5), na = 1 + r.below(5); for (size_t i = 0; i < nb; ++i) num.push_back(float(r.uni(-2, 2))); den.push_back(float(r.chance(0.5) ? 1 : r.uni(0.3, 3)));
        for (size_t i = 1; i < na; ++i) den.push_back(float(r.uni(-0.6, 0.6)) * den[0]); common(r, std::max(nb, na - 1));
    }
    const char* name() const override { return "discreteSystem"; } void allocObj() override { s = get<discreteSystem>(1); } void allocBuf() override { allocCommon(); x = get<float>(std::max(num.size(), den.size())); }
    void construct() override { call([&] { new (s) discreteSystem(nullptr, nullptr, nullptr, 0, 0); return 0; }); }
    void setup() override { coef(); ok("discrete.setup", call([&] { return s->setup(bn, bd, x, num.size(), den.size()); })); after(); }
    void step(int code, float v, float w) override {
        if (code == 1) { lo = in(v, -30, 0); hi = lo + in(w, 0.1, 60); sat = true; ok("setSaturation", call([&] { return s->setSaturation(lo, hi); })); return; }
        if (code == 2) { for (auto& q : xi) q = in(v + q, -2, 2); init = true; ok("setInitStates", call([&] { return s->setInitStates(xi.data()); })); return; }
        sampled(v);
    }
    Bad bad(int i) override {
        TRY("setup(null num)", s->setup(nullptr, bd, x, num.size(), den.size())); TRY("setup(null den)", s->setup(bn, nullptr, x, num.size(), den.size())); TRY("setup(null x)", s->setup(bn, bd, nullptr, num.size(), den.size())); TRY("setup(nb=0)", s->setup(bn, bd, x, 0, den.size())); TRY("setup(na=0)", s->setup(bn, bd, x, num.size(), 0));
        TRY("setSaturation(max<min)", s->setSaturation(float(u01(bv) * 40 - 20), float(u01(bv) * 40 - 20) + neg())); TRY("setSaturation(equal)", s->setSaturation(float(u01(bv) * 40 - 20), float(u01(bv) * 40 - 20))); TRY("setSaturation(nan)", s->setSaturation(QNAN, 3)); TRY("setSaturation(.,nan)", s->setSaturation(3, QNAN)); return {nullptr, false};
    }
    Bad pre(int i) override { TRY("setSaturation", s->setSaturation(-1, 1)); TRY("setInitStates", s->setInitStates()); TRY("setDelay", s->setDelay(x, 1, 0)); TRY("isInitialized", s->isInitialized()); TRY("setup(null)", s->setup(nullptr, bd, x, 1, 1)); return {nullptr, false}; }
};
struct Cont : Lti<Cont, continuousSystem> {
    nState* x = nullptr; float dt; int im; size_t n;
    explicit Cont(Rng& r) {
        n = 1 + r.below(4); float a0 = float(r.chance(0.5) ? 1 : r.uni(0.3, 3)); std::vector<double> d{1}; for (size_t i = 0; i < n; ++i) { double p = r.uni(0.2, 3); d.push_back(0); for (size_t k = d.size() - 1; k >= 1; --k) d[k] += p * d[k - 1]; }
        for (double q : d) den.push_back(float(q) * a0); for (size_t i = 0; i <= n; ++i) num.push_back(float(r.uni(-2, 2))); dt = float(r.logu(0.001, 0.1)); im = int(r.below(3)); common(r, n);
    }
    const char* name() const override { return "continuousSystem"; } void allocObj() override { s = get<continuousSystem>(1); } void allocBuf() override { allocCommon(); x = get<nState>(n); } void constructBuf() { call([&] { for (size_t i = 0; i < n; ++i) new (x + i) nState; return 0; }); }
    void construct() override { call([&] { new (s) continuousSystem(nullptr, nullptr, nullptr, 0, 1); for (size_t i = 0; i < n; ++i) new (x + i) nState; return 0; }); }
    void setup() override { coef(); ok("continuous.setup", call([&] { return s->setup(bn, bd, x, n, dt); })); ok("setIntegrationMethod", call([&] { return s->setIntegrationMethod(integrationMethod(im)); })); after(); }
    void step(int code, float v, float w) override {
        if (code == 1) { lo = in(v, -30, 0); hi = lo + in(w, 0.1, 60); sat = true; ok("setSaturation", call([&] { return s->setSaturation(lo, hi); })); return; }
        if (code == 2) { for (auto& q : xi) q = in(v + q, -2, 2); init = true; ok("setInitStates", call([&] { return s->setInitStates(xi.data()); })); return; }
        if (code == 3) { im = int(u01(v) * 3); ok("setIntegrationMethod", call([&] { return s->setIntegrationMethod(integrationMethod(im)); })); return; }
        sampled(v);
    }
    Bad bad(int i) override {
        TRY("setup(null num)", s->setup(nullptr, bd, x, n, dt)); TRY("setup(null den)", s->setup(bn, nullptr, x, n, dt)); TRY("setup(null x)", s->setup(bn, bd, nullptr, n, dt)); TRY("setup(n=0)", s->setup(bn, bd, x, 0, dt));
        TRY("setSaturation(max<min)", s->setSaturation(float(u01(bv) * 40 - 20), float(u01(bv) * 40 - 20) + neg())); TRY("setSaturation(equal)", s->setSaturation(float(u01(bv) * 40 - 20), float(u01(bv) * 40 - 20))); TRY("setSaturation(nan)", s->setSaturation(QNAN, 3)); TRY("setIntegrationMethod(quadratic)", s->setIntegrationMethod(INTEGRATION_QUADRATIC)); return {nullptr, false};
    }
    Bad pre(int i) override { TRY("setSaturation", s->setSaturation(-1, 1)); TRY("setInitStates", s->setInitStates()); TRY("setDelay", s->setDelay(bn, 1, 0)); TRY("setIntegrationMethod", s->setIntegrationMethod(INTEGRATION_RECTANGULAR)); TRY("isInitialized", s->isInitialized()); TRY("setup(null)", s->setup(nullptr, bd, x, 1, 1)); return {nullptr, false}; }
};
// systems built from transfer function objects, which carry coefficients and states
template <size_t NB, size_t NA> struct DiscTf : Base<DiscTf<NB, NA>> {
    using F = discreteTF<NB, NA>; F* tf = nullptr; discreteSystem* s = nullptr; float nu[NB], de[NA], gap = 0; bool own; size_t n = NB > NA ? NB : NA;
    explicit DiscTf(Rng& r) : own(r.chance(0.5)) { for (auto& q : nu) q = float(r.uni(-2, 2)); for (auto& q : de) q = float(r.uni(-0.5, 0.5)); de[0] = float(r.uni(0.5, 2)); }
    const char* name() const override { return "discreteTF"; } void allocObj() override { tf = this->template get<F>(1); s = this->template get<discreteSystem>(1); } void keep(const DiscTf& o) { tf = o.tf; s = o.s; own = o.own; }
    void construct() override { call([&] { new (tf) F(nu, de); if (own) new (s) discreteSystem(*tf); else new (s) discreteSystem(nullptr, nullptr, nullptr, 0, 0); return 0; }); }
    void setup() override { call([&] { new (tf) F(nu, de); return 0; }); this->ok("discrete.setup(tf)", call([&] { return s->setup(*tf); })); this->ok("setInitStates", call([&] { return s->setInitStates(); })); }
    void reset() override { this->ok("setInitStates", call([&] { return s->setInitStates(); })); }
    void step(int code, float v, float) override { if (code == 1) { reset(); return; } this->out(call([&] { return s->excite(v); })); for (size_t i = 0; i < NB; ++i) this->out(tf->num[i]); for (size_t i = 0; i < NA; ++i) this->out(tf->den[i]); cover(H("discreteTF"), NB * 8 + NA, uint64_t(bucket(v) + 100)); }
};
template <size_t N> struct ContTf : Base<ContTf<N>> {
    using F = continuousTF<N>; F* tf = nullptr; continuousSystem* s = nullptr; float nu[N + 1], de[N + 1], dt; bool own;
    explicit ContTf(Rng& r) : dt(float(r.logu(0.001, 0.1))), own(r.chance(0.5)) { std::vector<double> d{1}; for (size_t i = 0; i < N; ++i) { double p = r.uni(0.2, 3); d.push_back(0); for (size_t k = d.size() - 1; k >= 1; --k) d[k] += p * d[k - 1]; } float a0 = float(r.uni(0.3, 3)); for (size_t i = 0; i <= N; ++i) { nu[i] = float(r.uni(-2, 2)); de[i] = float(d[i]) * a0; } }
    const char* name() const override { return "continuousTF"; } void allocObj() override { tf = this->template get<F>(1); s = this->template get<continuousSystem>(1); } void keep(const ContTf& o) { tf = o.tf; s = o.s; own = o.own; }
    void construct() override { call([&] { new (tf) F(nu, de); if (own) new (s) continuousSystem(*tf, dt); else new (s) continuousSystem(nullptr, nullptr, nullptr, 0, 1); return 0; }); }
    void setup() override { call([&] { new (tf) F(nu, de); return 0; }); this->ok("continuous.setup(tf)", call([&] { return s->setup(*tf, dt); })); this->ok("setInitStates", call([&] { return s->setInitStates(); })); }
    void reset() override { this->ok("setInitStates", call([&] { return s->setInitStates(); })); }
    void step(int code, float v, float) override { if (code == 1) { reset(); return; } this->out(call([&] { return s->excite(v); })); for (size_t i = 0; i <= N; ++i) { this->out(tf->num[i]); this->out(tf->den[i]); } cover(H("continuousTF"), N, uint64_t(bucket(v) + 100)); }
};
struct Numa : Base<Numa> {
    nState* s = nullptr; float x0, a, b, dt; int im, dm; explicit Numa(Rng& r) : x0(float(r.uni(-5, 5))), a(float(r.uni(-5, 5))), b(float(r.uni(-5, 5))), dt(float(r.logu(0.001, 1))), im(int(r.below(4))), dm(int(r.below(3))) {}
    const char* name() const override { return "nState"; } void allocObj() override { s = get<nState>(1); } void keep(const Numa& o) { s = o.s; } void construct() override { call([&] { new (s) nState; return 0; }); }
    void setup() override { call([&] { s->init(x0, a, b); s->setIntegrationMethod(integrationMethod(im)); s->setDerivationMethod(derivationMethod(dm)); return 0; }); } void reset() override { call([&] { s->init(x0, a, b); return 0; }); }
    void step(int code, float v, float w) override {
        if (code == 1) { im = int(u01(v) * 4); call([&] { s->setIntegrationMethod(integrationMethod(im)); return 0; }); return; }
        if (code == 2) { dm = int(u01(v) * 3); call([&] { s->setDerivationMethod(derivationMethod(dm)); return 0; }); return; }
        bool up = !(u01(w) < 0.3); if (u01(w * 3) < 0.5) out(call([&] { return s->integrate(v, dt, up); })); else out(call([&] { return s->derive(v, dt, up); }));
        out(call([&] { return (*s)(); })); out(call([&] { return *s * v; })); out(call([&] { return *s + v; })); out(call([&] { return v - *s; })); cover(H("nState"), uint64_t(im * 3 + dm), uint64_t(bucket(v) + 100));
    }
};
// ------------------------------------------------------------------ fuzzy systems
inline int mfParams(int s) { switch (s) { case fis::trimf: case fis::gbellmf: return 3; case fis::trapmf: case fis::gauss2mf: case fis::dsigmf: case fis::psigmf: case fis::pimf: return 4; case fis::singletonmf: case fis::constantmf: return 1; default: return 2; } }
inline real_t customMF(const fis::ioBase* const, const real_t* p, const size_t) { return p[0] * 0.1f; }
struct Fis : Base<Fis> {
    struct Set { int io, shape; float h; std::vector<float> p; float* q = nullptr; };
    int type, ni, no, andOp = 0, orOp = 2, imp = 0, agg = 2, df; std::vector<Set> is, os; std::vector<fis::rules> rl; size_t nr; std::vector<float> rw, rg; bool weights, store; bool templ;
    fis::instance* f = nullptr; fis::input* fi = nullptr; fis::output* fo = nullptr; fis::mf *mi = nullptr, *mo = nullptr; fis::rules* fr = nullptr; float *wi = nullptr, *wr = nullptr; std::vector<float*> xa, ya;
    explicit Fis(Rng& r) {
        type = int(r.below(3)); ni = 1 + int(r.below(3)); no = 1 + int(r.below(2)); df = type == 0 ? int(r.below(5)) : type == 1 ? 5 + int(r.below(2)) : 5; templ = false;
        andOp = int(r.below(2)); orOp = 2 + int(r.below(2)); imp = int(r.below(2)); agg = 2 + int(r.below(3)); store = type == 0 && r.chance(0.5); weights = r.chance(0.4);
        for (int i = 0; i < ni + no; ++i) { rg.push_back(float(r.uni(-10, 0))); rg.push_back(float(r.uni(1, 10))); }
        auto mk = [&](int io, int shape, double lo, double hi) {
            Set s{io, shape, r.chance(0.7) ? 1.f : float(r.uni(0.3, 1)), {}, nullptr}; int n = mfParams(shape); std::vector<double> v; for (int k = 0; k < n; ++k) v.push_back(r.uni(lo, hi)); std::sort(v.begin(), v.end());
            if (shape == fis::gbellmf || shape == fis::gaussmf || shape == fis::sigmf || shape == fis::spikemf) v[0] = r.uni(0.5, 3); if (shape == fis::gbellmf) v[1] = r.uni(0.5, 3); if (shape == fis::gauss2mf || shape == fis::dsigmf || shape == fis::psigmf) v[0] = r.uni(0.5, 3), v[2] = r.uni(0.5, 3); if (shape == fis::cosmf) v[1] = r.uni(1, 8);
            if (shape == fis::tsigmf) v[0] = r.uni(0.5, 3);
            for (double q : v) s.p.push_back(float(q)); return s;
        };
        for (int i = 0; i < ni; ++i) for (int k = 0; k < 3; ++k) is.push_back(mk(i, r.chance(0.1) ? int(fis::custommf) : int(fis::trimf) + int(r.below(18)), rg[size_t(2 * i)], rg[size_t(2 * i + 1)]));
        for (int o = 0; o < no; ++o) for (int k = 0; k < 3; ++k) {
            double lo = rg[size_t(2 * (ni + o))], hi = rg[size_t(2 * (ni + o) + 1)];
            if (type == 0) os.push_back(mk(o, int(fis::trimf) + int(r.below(18)), lo, hi));
            else if (type == 2) os.push_back(mk(o, int(fis::tlinsmf) + int(r.below(7)), lo, hi));
            else if (r.chance(0.5)) os.push_back(mk(o, fis::constantmf, lo, hi));
            else { Set s{o, fis::linearmf, 1, {}, nullptr}; for (int k2 = 0; k2 <= ni; ++k2) s.p.push_back(float(r.uni(-1, 1))); os.push_back(s); }
        }
        nr = 1 + r.below(5); rl.push_back(fis::Q_FIS_RULES_BEGIN);
        for (size_t q = 0; q < nr; ++q) {
            int nt = 1 + int(r.below(uint32_t(ni))); for (int k = 0; k < nt; ++k) { int st = k * 3 + int(r.below(3)); rl.push_back(fis::rules(is[size_t(st)].io)); rl.push_back(fis::rules(r.chance(0.2) ? -(st + 1) : st + 1)); rl.push_back(k + 1 < nt ? (r.chance(0.5) ? fis::Q_FIS_AND : fis::Q_FIS_OR) : fis::Q_FIS_THEN); }
            int nc = 1 + int(r.below(uint32_t(no))); for (int k = 0; k < nc; ++k) { if (k) rl.push_back(fis::Q_FIS_AND); int o = nc == 1 ? int(r.below(uint32_t(no))) : k; rl.push_back(fis::rules(o)); rl.push_back(fis::rules(o * 3 + 1 + int(r.below(3)))); }
            rw.push_back(float(r.uni(0, 1)));
        }
        rl.push_back(fis::Q_FIS_RULES_END);
    }
    const char* name() const override { return "fis"; }
    void allocObj() override { f = get<fis::instance>(1); }
    void keep(const Fis& o) { f = o.f; weights |= o.weights; }          // rule weights, once set, can only be replaced
    void allocBuf() override {
        fi = get<fis::input>(size_t(ni)); fo = get<fis::output>(size_t(no)); mi = get<fis::mf>(is.size()); mo = get<fis::mf>(os.size()); fr = get<fis::rules>(rl.size()); wi = get<float>(nr); wr = get<float>(nr);
        for (auto* v : {&is, &os}) for (auto& s : *v) s.q = get<float>(s.p.size()); xa.assign(size_t(no), nullptr); ya = xa; if (store) for (int o = 0; o < no; ++o) { xa[size_t(o)] = get<float>(100); ya[size_t(o)] = get<float>(100); }
    }
    void construct() override { call([&] { new (f) fis::instance; return 0; }); constructBuf(); }
    void constructBuf() { call([&] { for (int i = 0; i < ni; ++i) new (fi + i) fis::input; for (int i = 0; i < no; ++i) new (fo + i) fis::output; for (size_t i = 0; i < is.size(); ++i) new (mi + i) fis::mf; for (size_t i = 0; i < os.size(); ++i) new (mo + i) fis::mf; return 0; }); }
    void setup() override {
        memcpy(fr, rl.data(), rl.size() * sizeof(fis::rules)); for (auto* v : {&is, &os}) for (auto& s : *v) memcpy(s.q, s.p.data(), 4 * s.p.size()); memcpy(wr, rw.data(), 4 * nr);
        ok("fis.setup", call([&] { return f->setup(fis::type(type), fi, size_t(ni), fo, size_t(no), mi, is.size(), mo, os.size(), fr, nr, wi); }));
        ranges(); for (size_t k = 0; k < is.size(); ++k) setIn(k); for (size_t k = 0; k < os.size(); ++k) setOut(k); ops(lazy); if (!lazy || (df != 0 && df != 5)) ok("setDeFuzzMethod", call([&] { return f->setDeFuzzMethod(fis::deFuzzMethod(df)); }));
        if (weights) ok("setRuleWeights", call([&] { return f->setRuleWeights(wr); })); if (store) for (int o = 0; o < no; ++o) ok("storeAggregatedRegion", call([&] { return fo[o].storeAggregatedRegion(xa[size_t(o)], ya[size_t(o)], f->getNumberOfPoints()); }));
    }
    void setIn(size_t k) { Set& s = is[k]; ok("setupInputMF", call([&] { return s.shape == fis::custommf ? f->setupInputMF(fis::tag(s.io), fis::tag(k), &customMF, s.q, s.h) : f->setupInputMF(fis::tag(s.io), fis::tag(k), fis::shapeMF(s.shape), s.q, s.h); })); }
    void setOut(size_t k) { Set& s = os[k]; ok("setupOutputMF", call([&] { return f->setupOutputMF(fis::tag(s.io), fis::tag(k), fis::shapeMF(s.shape), s.q, s.h); })); }
    void ranges() { for (int i = 0; i < ni; ++i) ok("setupInput", call([&] { return f->setupInput(fis::tag(i), rg[size_t(2 * i)], rg[size_t(2 * i + 1)]); })); for (int o = 0; o < no; ++o) ok("setupOutput", call([&] { return f->setupOutput(fis::tag(o), rg[size_t(2 * (ni + o))], rg[size_t(2 * (ni + o) + 1)]); })); }
    void ops(bool z = false) { if (!z || andOp != 0) ok("FIS_AND", call([&] { return f->setParameter(fis::FIS_AND, fis::paramValue(andOp)); })); if (!z || orOp != 2) ok("FIS_OR", call([&] { return f->setParameter(fis::FIS_OR, fis::paramValue(orOp)); })); if (!z || imp != 0) ok("FIS_Implication", call([&] { return f->setParameter(fis::FIS_Implication, fis::paramValue(imp)); })); if (!z || agg != 2) ok("FIS_Aggregation", call([&] { return f->setParameter(fis::FIS_Aggregation, fis::paramValue(agg)); })); }
    void reset() override {}                                // a fuzzy system has no history to reset
    void step(int code, float v, float w) override {
        switch (code) {
            case 1: andOp = u01(v) < 0.5; orOp = 2 + (u01(w) < 0.5); imp = u01(v * 3) < 0.5; agg = 2 + int(u01(w * 3) * 3); ops(); return;
            case 2: df = type == 0 ? int(u01(v) * 5) : type == 1 ? 5 + (u01(v) < 0.5) : 5; ok("setDeFuzzMethod", call([&] { return f->setDeFuzzMethod(fis::deFuzzMethod(df)); })); return;
            case 3: { size_t k = size_t(u01(v) * double(is.size())); is[k].h = in(w, 0, 1); setIn(k); return; }
            case 4: { size_t k = size_t(u01(v) * double(2 * ni)) / 2; rg[2 * k] = in(v, -10, 0); rg[2 * k + 1] = in(w, 1, 10); ranges(); return; }
            case 5: { size_t k = size_t(u01(v) * double(os.size())); os[k].h = in(w, 0, 1); setOut(k); return; }
            default: break;
        }
        bool stream = u01(w * 5) < 0.3;
        for (int i = 0; i < ni; ++i) { float x = i == 0 ? v : i == 1 ? w : 0.5f * (v - w); if (stream) call([&] { *f << fis::tag(ni + i * i) << x << fis::tag(i) << x; return 0; }); else ok("setInput", call([&] { return f->setInput(fis::tag(i), x); })); }
        outu(call([&] { return f->fuzzify(); })); outu(call([&] { return f->inference(); })); outu(call([&] { return f->deFuzzify(); }));
        for (int o = 0; o < no; ++o) { float y = 0; ok("getOutput", call([&] { return f->getOutput(fis::tag(o), y); })); out(y); out(call([&] { return (*f)[fis::tag(o)]; })); }
        out(call([&] { return (*f)[fis::tag(no + 3)]; }));
        for (size_t k = 0; k < nr; ++k) out(wi[k]);
        if (store) for (int o = 0; o < no; ++o) for (int k = 0; k < 100; k += 9) { out(xa[size_t(o)][k]); out(ya[size_t(o)][k]); }
        cover(H("fis"), uint64_t(type * 8 + df), uint64_t(bucket(v) + 100), nr);
    }
    Bad bad(int i) override {
        TRY("setup(null inputs)", f->setup(fis::type(type), nullptr, size_t(ni), fo, size_t(no), mi, is.size(), mo, os.size(), fr, nr, wi)); TRY("setup(0 inputs)", f->setup(fis::type(type), fi, 0, fo, size_t(no), mi, is.size(), mo, os.size(), fr, nr, wi)); TRY("setup(null outputs)", f->setup(fis::type(type), fi, size_t(ni), nullptr, size_t(no), mi, is.size(), mo, os.size(), fr, nr, wi));
        TRY("setup(0 outputs)", f->setup(fis::type(type), fi, size_t(ni), fo, 0, mi, is.size(), mo, os.size(), fr, nr, wi)); TRY("setup(null in mf)", f->setup(fis::type(type), fi, size_t(ni), fo, size_t(no), nullptr, is.size(), mo, os.size(), fr, nr, wi)); TRY("setup(0 in mf)", f->setup(fis::type(type), fi, size_t(ni), fo, size_t(no), mi, 0, mo, os.size(), fr, nr, wi));
        TRY("setup(null out mf)", f->setup(fis::type(type), fi, size_t(ni), fo, size_t(no), mi, is.size(), nullptr, os.size(), fr, nr, wi)); TRY("setup(0 out mf)", f->setup(fis::type(type), fi, size_t(ni), fo, size_t(no), mi, is.size(), mo, 0, fr, nr, wi)); TRY("setup(null rules)", f->setup(fis::type(type), fi, size_t(ni), fo, size_t(no), mi, is.size(), mo, os.size(), nullptr, nr, wi));
        TRY("setup(0 rules)", f->setup(fis::type(type), fi, size_t(ni), fo, size_t(no), mi, is.size(), mo, os.size(), fr, 0, wi)); TRY("setup(null strengths)", f->setup(fis::type(type), fi, size_t(ni), fo, size_t(no), mi, is.size(), mo, os.size(), fr, nr, nullptr));
        TRY("FIS_AND max", f->setParameter(fis::FIS_AND, fis::FIS_MAX)); TRY("FIS_AND sum", f->setParameter(fis::FIS_AND, fis::FIS_SUM)); TRY("FIS_OR min", f->setParameter(fis::FIS_OR, fis::FIS_MIN)); TRY("FIS_OR prod", f->setParameter(fis::FIS_OR, fis::FIS_PROD)); TRY("FIS_OR sum", f->setParameter(fis::FIS_OR, fis::FIS_SUM));
        TRY("FIS_Implication max", f->setParameter(fis::FIS_Implication, fis::FIS_MAX)); TRY("FIS_Implication probor", f->setParameter(fis::FIS_Implication, fis::FIS_PROBOR)); TRY("FIS_Aggregation min", f->setParameter(fis::FIS_Aggregation, fis::FIS_MIN)); TRY("FIS_Aggregation prod", f->setParameter(fis::FIS_Aggregation, fis::FIS_PROD));
        if (type != 0) TRY("defuzz centroid", f->setDeFuzzMethod(fis::centroid)); if (type != 0) TRY("defuzz som", f->setDeFuzzMethod(fis::som)); if (type == 0) TRY("defuzz wtaver", f->setDeFuzzMethod(fis::wtaver)); if (type != 1) TRY("defuzz wtsum", f->setDeFuzzMethod(fis::wtsum)); TRY("defuzz out of range", f->setDeFuzzMethod(fis::FIS_NUM_DEFUZZ));
        TRY("setupInput(-1)", f->setupInput(fis::tag(-1), 0, 1)); TRY("setupOutput(-1)", f->setupOutput(fis::tag(-1), 0, 1)); TRY("setInput(-1)", f->setInput(fis::tag(-1), 0.5f)); float y; TRY("getOutput(-1)", f->getOutput(fis::tag(-1), y));
        TRY("setupInputMF(io<0)", f->setupInputMF(fis::tag(-1), fis::tag(0), fis::trimf, is[0].q)); TRY("setupInputMF(mf<0)", f->setupInputMF(fis::tag(0), fis::tag(-1), fis::trimf, is[0].q)); TRY("setupInputMF(shape)", f->setupInputMF(fis::tag(0), fis::tag(0), fis::FIS_NUM_MFS, is[0].q)); TRY("setupOutputMF(io<0)", f->setupOutputMF(fis::tag(-2), fis::tag(0), fis::trimf, os[0].q)); TRY("setupOutputMF(mf<0)", f->setupOutputMF(fis::tag(0), fis::tag(-1), fis::trimf, os[0].q)); TRY("setupOutputMF(shape)", f->setupOutputMF(fis::tag(0), fis::tag(0), fis::FIS_NUM_MFS, os[0].q));
        TRY("setRuleWeights(null)", f->setRuleWeights(nullptr)); TRY("store(null x)", fo[0].storeAggregatedRegion(nullptr, wi, 100)); TRY("store(null y)", fo[0].storeAggregatedRegion(wi, nullptr, 100)); TRY("store(too small)", fo[0].storeAggregatedRegion(wi, wi, f->getNumberOfPoints() - 1));
        // a damaged rule table: inference notices; the table is repaired afterwards
        auto dmg = [&](size_t k, fis::rules v) { fis::rules old = fr[k]; fr[k] = v; bool r = f->inference(); fr[k] = old; return r; };
        auto spot = [&](std::initializer_list<fis::rules> which) { std::vector<size_t> c; for (size_t k = 1; k + 1 < rl.size(); ++k) for (auto w : which) if (rl[k] == w) c.push_back(k); return c.empty() ? size_t(0) : c[size_t(bv * 0.999f * float(c.size()))]; };
        size_t th = spot({fis::Q_FIS_THEN}); static const int junk[] = {0, 1, 2, 77, -1, -5};
        TRY("inference(no begin mark)", dmg(0, fis::rules(junk[int(bv * 5.9f)]))); TRY("inference(begin is end)", dmg(0, fis::Q_FIS_THEN)); TRY("inference(unknown connector)", dmg(th, fis::rules(junk[int(bv * 5.9f)]))); TRY("inference(begin as connector)", dmg(th, fis::Q_FIS_RULES_BEGIN));
        size_t io = th - 2;                                 // the last antecedent's input
        TRY("inference(unknown input)", dmg(io, fis::rules(ni + int(bv * 20)))); TRY("inference(negative input)", dmg(io, fis::rules(-1 - int(bv * 20)))); TRY("inference(too few rules)", dmg(1, fis::Q_FIS_RULES_END));
        return {nullptr, false};
    }
    Bad pre(int i) override {
        TRY("setupInput", f->setupInput(0, 0, 1)); TRY("setupOutput", f->setupOutput(0, 0, 1)); TRY("setupInputMF", f->setupInputMF(0, 0, fis::trimf, is[0].q)); TRY("setupOutputMF", f->setupOutputMF(0, 0, fis::trimf, os[0].q)); TRY("setInput", f->setInput(0, 1)); float y; TRY("getOutput", f->getOutput(0, y)); TRY("fuzzify", f->fuzzify()); TRY("inference", f->inference()); TRY("deFuzzify", f->deFuzzify());
        TRY("storeAggregatedRegion", fo[0].storeAggregatedRegion(wi, wi, 100)); return {nullptr, false};
    }
};
// ------------------------------------------------------------------ bit-field
struct Bits : Base<Bits> {
    bitfield* s = nullptr; uint8_t* a = nullptr; uint8_t* d = nullptr; size_t n; bool ones; explicit Bits(Rng& r) : n(4 * (1 + r.below(6))), ones(r.chance(0.3)) {}
    const char* name() const override { return "bitfield"; } void allocObj() override { s = get<bitfield>(1); } void allocBuf() override { a = get<uint8_t>(n); d = get<uint8_t>(n); } void keep(const Bits& o) { s = o.s; } void construct() override { call([&] { new (s) bitfield; return 0; }); }
    void setup() override { ok("bitfield.setup", call([&] { return s->setup(a, n); })); reset(); } void reset() override { ok("clearAll", call([&] { return ones ? s->setAll() : s->clearAll(); })); }
    void step(int code, float v, float w) override {
        size_t bits = 8 * n, i = size_t(u01(v) * double(bits)), x = 1 + size_t(u01(w) * 32); if (x > 32) x = 32; uint32_t val; memcpy(&val, &v, 4); val ^= uint32_t(x * 2654435761u); if (i + x > bits) i = bits - x; size_t i32 = std::min(i, bits - 32), b = std::min(i, bits - 1);
        switch (code) {
            case 1: ok("setBit", call([&] { return s->setBit(b); })); break; case 2: ok("clearBit", call([&] { return s->clearBit(b); })); break; case 3: ok("toggleBit", call([&] { return s->toggleBit(b); })); break; case 4: ok("writeFloat", call([&] { return s->writeFloat(i32, w); })); out(call([&] { return s->readFloat(i32); })); break;
            case 5: ok("writeBit", call([&] { return s->writeBit(b, val & 1); })); break; default: ok("writeUINTn", call([&] { return s->writeUINTn(i, x, val); }));
        }
        outu(call([&] { return s->readUINTn(i, x); })); outu(call([&] { return s->readBit(b); })); call([&] { return s->dump(d, n); }); for (size_t k = 0; k < n; k += 4) { uint32_t q; memcpy(&q, d + k, 4); outu(q); }
        cover(H("bitfield"), x, i % 32, uint64_t(code));
    }
    Bad bad(int i) override { TRY("setup(null)", s->setup(nullptr, n)); TRY("setup(0)", s->setup(a, 0)); TRY("writeUINTn(33)", s->writeUINTn(0, 33 + size_t(bv * 200), 5)); TRY("dump(too large)", s->dump(d, n + 1 + size_t(bv * 9)) != nullptr); TRY("dump(null)", s->dump(nullptr, n) != nullptr); return {nullptr, false}; }
    Bad pre(int i) override { TRY("setBit", s->setBit(0)); TRY("clearBit", s->clearBit(0)); TRY("toggleBit", s->toggleBit(0)); TRY("writeBit", s->writeBit(0, true)); TRY("writeUINTn", s->writeUINTn(0, 8, 3)); TRY("writeFloat", s->writeFloat(0, 1)); TRY("clearAll", s->clearAll()); TRY("setAll", s->setAll()); TRY("dump", s->dump(d, 1) != nullptr); TRY("readBit", s->readBit(0)); return {nullptr, false}; }
};
// ------------------------------------------------------------------ check-sums
struct Crc : Base<Crc> {
    uint8_t* a = nullptr; size_t n, pos = 0; explicit Crc(Rng& r) : n(1 + r.below(r.chance(0.15) ? 400 : 40)) {}
    const char* name() const override { return "crc"; } void allocObj() override {} void allocBuf() override { a = get<uint8_t>(n); } void keep(const Crc&) {} void construct() override {} void setup() override { memset(a, 0, n); pos = 0; } void reset() override { setup(); } bool rebuild() const override { return false; }
    void step(int code, float v, float w) override {
        memcpy(a + (pos % n), &v, std::min<size_t>(4, n - pos % n)); pos += 3; size_t l = 1 + size_t(u01(w) * double(n)); if (l > n) l = n;
        switch (code) {
            case 1: outu(call([&] { return uint32_t(crc::crc8_MAXIM(a, l)); })); break; case 2: outu(call([&] { return uint32_t(crc::crc16_MODBUS(a, l)); })); break; case 3: outu(call([&] { return crc::crc32_BZIP2(a, l); })); break; case 4: outu(call([&] { return uint32_t(crc::crc16_CCITT_FALSE(a, l)); })); break;
            case 5: outu(call([&] { return crc::generic(CRC16, a, l, 0x1021, 0x55, true, false, 0x33); })); break; default: outu(call([&] { return crc::crc32(a, l); }));
        }
        outu(call([&] { return crc::crc32(a, 0); })); cover(H("crc"), uint64_t(code), l);
    }
};
// ------------------------------------------------------------------ stateless helpers over user arrays: interpolation, algorithms, fixed point text, polygons, matrices
inline bool ltF(const float& x, const float& y) { return x < y; }
inline bool posF(const float x) { return x > 0; }
struct Kit : Base<Kit> {
    size_t n; int meth; float *tx = nullptr, *ty = nullptr; interp1* ip = nullptr; char* str = nullptr; using A7 = float[7]; A7* a7 = nullptr; mat<2, 3>* m = nullptr;
    explicit Kit(Rng& r) : n(r.chance(0.2) ? 1 + r.below(3) : 4 + r.below(6)), meth(int(r.below(INTERP1_MAX))) {}
    const char* name() const override { return "kit"; }
    void allocObj() override {} void keep(const Kit&) {} void constructBuf() { construct(); }
    void allocBuf() override { tx = get<float>(n); ty = get<float>(n); ip = get<interp1>(1); str = get<char>(13); a7 = reinterpret_cast<A7*>(get<float>(7)); m = get<mat<2, 3>>(1); }
    void construct() override { for (size_t i = 0; i < n; ++i) { tx[i] = float(i) * 1.5f - 2; ty[i] = float((i * 7) % 5) + 0.25f * float(i); } for (int i = 0; i < 7; ++i) (*a7)[i] = float((i * 5) % 7); call([&] { new (ip) interp1(tx, ty, n); new (m) mat<2, 3>; return 0; }); }
    void setup() override { construct(); if (n >= 4) ok("setData", call([&] { return ip->setData(tx, ty, n); })); ok("setMethod", call([&] { return ip->setMethod(interp1Method(meth)); })); }
    void step(int code, float v, float w) override {
        switch (code) {
            case 1: meth = int(u01(v) * INTERP1_MAX) % INTERP1_MAX; ok("setMethod", call([&] { return ip->setMethod(interp1Method(meth)); })); break;
            case 2: ty[size_t(u01(v) * double(n)) % n] = in(w, -5, 5); break;
            case 3: { (*a7)[int(u01(v) * 7) % 7] = w; int k = int(u01(w) * 30) - 15; call([&] { algorithm::rotate(*a7, k); return 0; }); for (float q : *a7) out(q); break; }
            case 4: call([&] { if (u01(v) < 0.5) algorithm::sort(*a7); else algorithm::sort(*a7, 0U, 6U, &ltF); return 0; }); for (float q : *a7) out(q); { float key = u01(v * 7) < 0.6 ? (*a7)[int(u01(w) * 7) % 7] : w; outu(call([&] { return algorithm::binary_search(*a7, key) != nullptr; })); outu(call([&] { return uint32_t(algorithm::count_if(*a7, &posF)); })); outu(call([&] { return algorithm::find(*a7, key) != nullptr; })); } break;
            case 5: { float c = v == v && std::fabs(v) < 3e4f ? v : 32767.9f; fp16 x = call([&] { return fp16::from(c); }); fp16 y = call([&] { return fp16::from(in(w, -200, 200)); }), z = x; for (int i = 0; i < 12; ++i) { switch (i) { case 0: z = call([&] { return z * y; }); break; case 1: z = call([&] { return x / y; }); break; case 2: z = call([&] { return z + y; }); break; case 3: z = call([&] { return fp16::sqrt(y); }); break; case 4: z = call([&] { return fp16::sin(y); }); break; case 5: z = call([&] { return fp16::exp(y); }); break; case 6: z = call([&] { return fp16::atan2(x, y); }); break; case 7: z = call([&] { return fp16::log(y); }); break; case 8: z = call([&] { return fp16::pow(y, x); }); break; case 9: z = call([&] { return fp16::tanh(y); }); break; case 10: z = call([&] { return fp16::wrapTo180(x); }); break; default: z = call([&] { return fp16::tan(y); }); break; } outu(uint32_t(z.raw())); }
                int dec = int(u01(w) * 9) - 2; call([&] { return fp16::toASCII(x, str, dec); }); outu(uint32_t(strlen(str))); outu(uint32_t(str[0])); break; }
            case 6: outu(call([&] { return ffmath::inPolygon(v, w, tx, ty, n); })); { auto q = *m; for (size_t i = 0; i < 6; ++i) q(i) = v + float(i); auto t = call([&] { return (q * (!q)); }); for (size_t i = 0; i < 4; ++i) out(t(i)); } break;
            default: { float x = std::fabs(v) < 1e6f ? v : w; out(call([&] { return ip->get(x); })); float k = in(v, -2, 1.5 * double(n)); out(call([&] { return ip->get(k); })); }
                out(call([&] { return ffmath::exp(v); })); out(call([&] { return ffmath::log(v); })); out(call([&] { return ffmath::sqrt(v); })); out(call([&] { return ffmath::atan2(v, w); })); out(call([&] { return ffmath::cos(v); }));
        }
        cover(H("kit"), uint64_t(code), uint64_t(meth), uint64_t(bucket(v) + 100));
    }
    Bad bad(int i) override { TRY("setData(null x)", ip->setData(nullptr, ty, n)); TRY("setData(null y)", ip->setData(tx, nullptr, n)); TRY("setData(3)", ip->setData(tx, ty, 3)); TRY("setMethod(max)", ip->setMethod(INTERP1_MAX)); return {nullptr, false}; }
};

constexpr int KINDS = 25;
inline std::unique_ptr<Agent> makeAgent0(int kind, Rng& r, uint64_t seed) {
    switch (kind) {
        case 0: return std::unique_ptr<Agent>(new Pid(r)); case 1: return std::unique_ptr<Agent>(new Lpf1(r)); case 2: return std::unique_ptr<Agent>(new Lpf2(r)); case 3: return std::unique_ptr<Agent>(new Mwm1(r));
        case 4: return std::unique_ptr<Agent>(new Mwm2(r)); case 5: return std::unique_ptr<Agent>(new Mor1(r)); case 6: return std::unique_ptr<Agent>(new Mor2(r)); case 7: return std::unique_ptr<Agent>(new Gmwf(r));
        case 8: return std::unique_ptr<Agent>(new Klmn(r)); case 9: return std::unique_ptr<Agent>(new Expw(r)); case 10: return std::unique_ptr<Agent>(new Desf(r)); case 11: return std::unique_ptr<Agent>(new Alnf(r));
        case 12: return std::unique_ptr<Agent>(new Rms(r)); case 13: return std::unique_ptr<Agent>(new Tdl(r)); case 14: if (seed & 1) return std::unique_ptr<Agent>(new Tdelay<1>(r)); return std::unique_ptr<Agent>(new Tdelay<7>(r));
        case 15: return std::unique_ptr<Agent>(new Disc(r)); case 16: return std::unique_ptr<Agent>(new Cont(r)); case 17: return std::unique_ptr<Agent>(new Numa(r)); case 18: case 19: return std::unique_ptr<Agent>(new Fis(r));
        case 20: return std::unique_ptr<Agent>(new Bits(r)); case 21: return std::unique_ptr<Agent>(new Crc(r)); case 22: return std::unique_ptr<Agent>(new Kit(r)); case 24: switch (seed % 5) { case 0: return std::unique_ptr<Agent>(new DiscTf<2, 4>(r)); case 1: return std::unique_ptr<Agent>(new DiscTf<4, 2>(r)); case 2: return std::unique_ptr<Agent>(new DiscTf<1, 1>(r)); case 3: return std::unique_ptr<Agent>(new ContTf<1>(r)); default: return std::unique_ptr<Agent>(new ContTf<3>(r)); } default: return std::unique_ptr<Agent>(new Pid(r));
    }
}
inline std::unique_ptr<Agent> makeAgent(int kind, uint64_t seed) { Rng r(seed); auto a = makeAgent0(kind, r, seed); a->lazy = r.chance(0.5); return a; }
} // namespace zoo
