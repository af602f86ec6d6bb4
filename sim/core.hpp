// Deterministic simulation core: plans, seeded randomness, run context, arena, seam.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <new>
#include <string>
#include <vector>
#include <functional>
#include <initializer_list>

namespace sim {

// ---------------------------------------------------------------- randomness
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
    uint64_t next() {                                   // splitmix64
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? uint32_t(next() % n) : 0; }
    int range(int lo, int hi) { return lo + int(below(uint32_t(hi - lo + 1))); }
    double uni() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double lo, double hi) { return lo + (hi - lo) * uni(); }
    double logu(double lo, double hi) { return std::exp(uni(std::log(lo), std::log(hi))); }
    bool chance(double p) { return uni() < p; }
    double sgn() { return (next() & 1) ? 1.0 : -1.0; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(uint32_t(v.size()))]; }
};
uint64_t mix(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- plans
constexpr uint32_t H(const char* s) {
    uint32_t h = 2166136261u;
    while (*s) h = (h ^ uint8_t(*s++)) * 16777619u;
    return h;
}
struct Step {
    std::string op;
    uint32_t h;
    std::vector<double> a;
    double arg(size_t i, double def = 0.0) const { return i < a.size() ? a[i] : def; }
    float f(size_t i, double def = 0.0) const { return float(arg(i, def)); }
    // integer argument, clamped: any minimised plan stays inside the harness's domain
    long n(size_t i, long lo, long hi, long def = 0) const {
        double v = arg(i, double(def));
        if (!(v >= double(lo))) return lo;
        if (v > double(hi)) return hi;
        return long(v);
    }
    // real argument clamped to a domain (NaN -> lo)
    float r(size_t i, double lo, double hi, double def) const {
        double v = arg(i, def);
        if (!(v >= lo)) v = lo;
        if (v > hi) v = hi;
        return float(v);
    }
};
struct Plan {
    std::vector<Step> s;
    void add(const char* op, std::initializer_list<double> a = {}) { s.push_back(Step{op, H(op), std::vector<double>(a)}); }
    void addv(const char* op, std::vector<double> a) { s.push_back(Step{op, H(op), std::move(a)}); }
};
bool savePlan(const char* path, const std::string& prop, const std::string& key, const Plan& p, const std::string& note);
bool loadPlan(const char* path, std::string& prop, std::string& key, Plan& p);

// ---------------------------------------------------------------- fault kinds
enum Fault {
    F_STUCK, F_DROP_HOLD, F_DROP_ZERO, F_SPIKE, F_BIAS, F_NOISE, F_CLIP, F_QUANT, F_SIGN, F_NAN, F_INF, F_DENORM, F_HUGE,
    F_MISSED, F_DUP, F_ACT_STUCK, F_ACT_RANGE, F_LOAD, F_LINK_BURST, F_LINK_BITS, F_LINK_TRUNC, F_LINK_DUP, F_LINK_REORDER,
    F_PREEMPT, F_CRASH, F_DIRTY_MEM, F_BADCFG, F_RESET, F_RECONF, F_LEVEL, F_IDLE, F_COUNT
};
extern const char* faultName[F_COUNT];

// ---------------------------------------------------------------- shared run record
constexpr size_t COVBITS = 1u << 22;
constexpr size_t PCBITS = 1u << 20;
struct Shared {
    volatile int status;            // 0 = running / died, 1 = ok, 2 = violation
    char key[96];
    char msg[1600];
    uint64_t hash;                  // hash of everything observed (outputs, events)
    uint64_t trace;                 // hash of the abstract trace (states reached)
    uint64_t nsteps;                // plan steps executed
    uint64_t nfaults;               // faults injected in this run
    uint64_t libcalls, compares, tight, skipped, seamEvents, switches, outOfDomain;
    double simTime;
    uint64_t faults[F_COUNT];
    uint64_t tot_libcalls, tot_compares, tot_tight, tot_skipped, tot_seam, tot_switches, tot_ood, tot_steps;
    double tot_simTime;
    uint8_t cov[COVBITS / 8];
    uint8_t pcs[PCBITS / 8];
};
extern Shared* sh;

// ---------------------------------------------------------------- context of a run
[[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void finish();                               // ends the run ok (used for early stops)
void observe(uint64_t v);                                 // into the run hash
inline void observe(float v) { uint32_t b; memcpy(&b, &v, 4); observe(uint64_t(b)); }
inline void observe(double v) { uint64_t b; memcpy(&b, &v, 8); observe(b); }
void cover(uint64_t feature);                             // abstract state reached
inline void cover(uint32_t fam, uint64_t a, uint64_t b = 0, uint64_t c = 0) { cover(mix(mix(fam, a), mix(b, c))); }
inline void fault(Fault f) { sh->faults[f]++; sh->nfaults++; }
inline void lib(uint64_t n = 1) { sh->libcalls += n; }
inline void simtime(double dt) { sh->simTime += dt; }
inline int bucket(double v) {                             // coarse magnitude class of a value
    if (v != v) return 99;
    if (std::isinf(v)) return v > 0 ? 98 : -98;
    if (v == 0) return 0;
    int e = int(std::floor(std::log10(std::fabs(v)) / 2.0));
    if (e < -5) e = -5; if (e > 8) e = 8;
    return v > 0 ? e + 10 : -(e + 10);
}

// ---------------------------------------------------------------- memory the library gets
// Non-ASan: arena blocks with canaries on both sides and seeded dirty contents.
// ASan: exact-size heap blocks.
void arenaReset();
void* memGet(size_t bytes, size_t align = 8);             // contents: current dirt pattern
void memCheck(const char* key);                           // canaries intact?
void setDirt(int mode, uint64_t seed);                    // 0 zeros, 1 0xFF (NaN), 2 0xA5, 3 random bytes, 4 random floats
void dirty(void* p, size_t n);                            // fill with the current pattern
template <class T> T* arr(size_t n) { return static_cast<T*>(memGet(n * sizeof(T), alignof(T))); }
template <class T, class... A> T* make(A&&... a) { return new (memGet(sizeof(T), alignof(T))) T(std::forward<A>(a)...); }

// ---------------------------------------------------------------- seam (instrumented library code)
struct Seam {
    int armed;                      // >0: events are delivered
    uint64_t count;                 // events since armed
    uint64_t fireAt;                // next event index that triggers the handler
    void (*handler)();              // decides what happens (switch, crash, inspect)
};
extern Seam seam;
extern int noPreempt;

// ---------------------------------------------------------------- scenario registry
struct Prop {
    const char* id;
    void (*gen)(Rng&, Plan&);
    void (*exec)(const Plan&);
};
void registerProp(const Prop& p);
struct Reg { Reg(const char* id, void (*g)(Rng&, Plan&), void (*e)(const Plan&)) { registerProp(Prop{id, g, e}); } };

// ---------------------------------------------------------------- signals with sensor faults
// A sample stream decided entirely by its arguments: used by the "burst" step.
struct Signal {
    Rng r; int kind; double amp, base, per; long k = 0; double last = 0, walk = 0;
    Signal(uint64_t seed, int kind_, double amp_, double base_, double per_) : r(seed), kind(kind_), amp(amp_), base(base_), per(per_ < 1 ? 1 : per_) {}
    double next();
};
enum { SIG_CONST, SIG_STEP, SIG_SINE, SIG_RAMP, SIG_NOISE, SIG_PRBS, SIG_WALK, SIG_SPIKY, SIG_QUANT, SIG_STUCK, SIG_IMPULSE, SIG_KINDS };

} // namespace sim
