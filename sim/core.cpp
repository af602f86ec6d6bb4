#include "core.hpp"
#include <cstdarg>
#include <unistd.h>
#include <sys/mman.h>
#include <map>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SIM_ASAN 1
#endif
#endif

namespace sim {

Shared* sh = nullptr;
Seam seam = {0, 0, ~0ull, nullptr};
int noPreempt = 0;

const char* faultName[F_COUNT] = {
    "sensor_stuck", "sample_drop_hold", "sample_drop_zero", "sensor_spike", "sensor_bias", "sensor_noise", "sensor_clip", "sensor_quantised",
    "sensor_sign_flip", "sensor_nan", "sensor_inf", "sensor_denormal", "sensor_huge", "missed_activation", "duplicated_activation",
    "actuator_stuck", "actuator_reduced_range", "load_disturbance", "link_burst", "link_bit_errors", "link_truncation", "link_duplicate", "link_reorder",
    "preemption", "crash_in_call", "dirty_memory", "invalid_configuration", "reset", "reconfiguration", "level_shift", "long_idle"};

uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15ull;
    z = (z ^ (z >> 32)) * 0xD6E8FEB86659FD93ull;
    z = (z ^ (z >> 32)) * 0xD6E8FEB86659FD93ull;
    return z ^ (z >> 32);
}
void observe(uint64_t v) { sh->hash = mix(sh->hash, v); }
void cover(uint64_t f) {
    size_t b = size_t(f & (COVBITS - 1));
    sh->cov[b >> 3] |= uint8_t(1u << (b & 7));
    sh->trace = mix(sh->trace, f);
}
void fail(const char* key, const char* fmt, ...) {
    seam.armed = 0;
    if (sh->status == 0) {
        snprintf(sh->key, sizeof sh->key, "%s", key);
        va_list ap; va_start(ap, fmt);
        vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
        va_end(ap);
        sh->status = 2;
    }
    _exit(0);
}
void finish() { seam.armed = 0; if (sh->status == 0) sh->status = 1; _exit(0); }

// ---------------------------------------------------------------- plans
bool savePlan(const char* path, const std::string& prop, const std::string& key, const Plan& p, const std::string& note) {
    FILE* f = fopen(path, "w");
    if (!f) return false;
    fprintf(f, "# %s\nproperty %s\nkey %s\n", note.c_str(), prop.c_str(), key.c_str());
    for (auto& s : p.s) {
        fprintf(f, "%s", s.op.c_str());
        for (double v : s.a) fprintf(f, " %a", v);
        fprintf(f, "\n");
    }
    fclose(f);
    return true;
}
bool loadPlan(const char* path, std::string& prop, std::string& key, Plan& p) {
    FILE* f = fopen(path, "r");
    if (!f) return false;
    char* line = nullptr; size_t cap = 0;
    while (getline(&line, &cap, f) > 0) {
        if (line[0] == '#') continue;
        std::vector<char*> t;
        for (char* q = strtok(line, " \n"); q; q = strtok(nullptr, " \n")) t.push_back(q);
        if (t.empty()) continue;
        if (!strcmp(t[0], "property")) { prop = t.size() > 1 ? t[1] : ""; continue; }
        if (!strcmp(t[0], "key")) { key = t.size() > 1 ? t[1] : ""; continue; }
        std::vector<double> a;
        for (size_t i = 1; i < t.size(); ++i) a.push_back(strtod(t[i], nullptr));
        p.addv(t[0], a);
    }
    free(line);
    fclose(f);
    return true;
}

// ---------------------------------------------------------------- memory
static int dirtMode = 0; static Rng dirtRng(1);
void setDirt(int mode, uint64_t seed) { dirtMode = mode; dirtRng = Rng(seed); if (mode) fault(F_DIRTY_MEM); }
void dirty(void* p, size_t n) {
    uint8_t* b = static_cast<uint8_t*>(p);
    switch (dirtMode) {
        case 0: memset(b, 0, n); break;
        case 1: memset(b, 0xFF, n); break;
        case 2: memset(b, 0xA5, n); break;
        case 4:
            for (size_t i = 0; i + 4 <= n; i += 4) { float v = float(dirtRng.uni(-1000, 1000)); memcpy(b + i, &v, 4); }
            break;
        default: for (size_t i = 0; i < n; ++i) b[i] = uint8_t(dirtRng.next()); break;
    }
}
struct Blk { uint8_t* p; size_t n; };
static std::vector<Blk> blks;
#ifdef SIM_ASAN
void arenaReset() { blks.clear(); }
void* memGet(size_t bytes, size_t) { void* p = malloc(bytes ? bytes : 1); dirty(p, bytes); return p; }
void memCheck(const char*) {}
#else
static uint8_t* arena = nullptr; static size_t arenaPos = 0;
constexpr size_t ARENA = 192u << 20, RZ = 256;
void arenaReset() {
    if (!arena) {
        void* want = reinterpret_cast<void*>(0x100000000000ull);
        void* p = mmap(want, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) abort();
        arena = static_cast<uint8_t*>(p);
    }
    arenaPos = 0; blks.clear();
}
static inline uint8_t can(size_t i) { return uint8_t(0x5B + i * 37); }
void* memGet(size_t bytes, size_t align) {
    if (!arena) arenaReset();
    size_t start = (arenaPos + RZ + 63) & ~size_t(63);
    // end the block right before its canary, start it aligned
    (void)align;
    uint8_t* p = arena + start;
    if (start + bytes + 2 * RZ > ARENA) { fprintf(stderr, "arena exhausted\n"); abort(); }
    for (size_t i = 0; i < RZ; ++i) { p[-ptrdiff_t(RZ) + ptrdiff_t(i)] = can(i); p[bytes + i] = can(i); }
    arenaPos = start + bytes + RZ;
    dirty(p, bytes);
    blks.push_back({p, bytes});
    return p;
}
void memCheck(const char* key) {
    for (auto& b : blks) {
        for (size_t i = 0; i < RZ; ++i) {
            if (b.p[-ptrdiff_t(RZ) + ptrdiff_t(i)] != can(i)) fail(key, "library wrote %zu byte(s) before a %zu-byte block", RZ - i, b.n);
            if (b.p[b.n + i] != can(i)) fail(key, "library wrote at offset %zu past a %zu-byte block", i, b.n);
        }
    }
}
#endif

// ---------------------------------------------------------------- signals
double Signal::next() {
    long i = k++;
    switch (kind) {
        case SIG_CONST: return base;
        case SIG_STEP: return base + ((long(i / per)) % 2 ? amp : 0);
        case SIG_SINE: return base + amp * std::sin(6.283185307179586 * double(i) / per);
        case SIG_RAMP: return base + amp * std::fmod(double(i), per) / per;
        case SIG_NOISE: return base + amp * r.uni(-1, 1);
        case SIG_PRBS: if (i % long(per) == 0) last = r.sgn(); return base + amp * last;
        case SIG_WALK: walk += r.uni(-1, 1); return base + amp * walk / std::sqrt(per);
        case SIG_SPIKY: if (r.chance(1.0 / (2 + per))) { fault(F_SPIKE); return base + amp * 50 * r.sgn(); } return base + amp * 0.01 * r.uni(-1, 1);
        case SIG_QUANT: fault(F_QUANT); return base + std::floor(amp * std::sin(6.283185307179586 * double(i) / per) * 4) / 4;
        case SIG_STUCK: if (i % long(per) == 0) last = r.uni(-1, 1); else fault(F_STUCK); return base + amp * last;
        default: return base + (i == 0 ? amp : 0);
    }
}
} // namespace sim
