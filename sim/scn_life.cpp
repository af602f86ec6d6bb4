// Life cycle of every component: P07 reset, P08 isolation under preemption, P09 crash recovery, P26 memory, P27 rejected configuration.
#include "zoo.hpp"
#include <ucontext.h>
#include <setjmp.h>
using namespace sim;
using namespace zoo;

namespace {
// ------------------------------------------------------------------ plan generation
int pickKind(Rng& r) { return int(r.below(KINDS)); }
float sample(Rng& r, double scale, double pFault) {
    if (!r.chance(pFault)) return float(scale * r.uni(-1, 1));
    switch (r.below(9)) {
        case 0: return QNAN; case 1: return INFINITY; case 2: return -INFINITY; case 3: return float(r.sgn() * 1e-40); case 4: return float(r.sgn() * 3.2e38); case 5: return float(r.sgn() * scale * 1e5); case 6: return 0.f; case 7: return -0.f; default: return float(r.sgn() * r.logu(1e-30, 1e30));
    }
}
void countSample(float v) {
    if (v != v) fault(F_NAN); else if (std::isinf(v)) fault(F_INF); else if (v != 0 && std::fabs(v) < 1.18e-38f) fault(F_DENORM); else if (std::fabs(v) > 1e30f) fault(F_HUGE); else if (std::fabs(v) > 1e5f) fault(F_SPIKE);
}
void genOps(Rng& r, Plan& p, const char* op, double lead, int n, double pFault, double pCfg) {
    double scale = r.logu(0.1, 100);
    for (int i = 0; i < n; ++i) {
        int code = r.chance(pCfg) ? 1 + int(r.below(7)) : 0;
        std::vector<double> a; if (lead >= 0) a.push_back(lead); a.push_back(code); a.push_back(sample(r, scale, pFault)); a.push_back(sample(r, scale, pFault)); p.addv(op, a);
    }
}
void doStep(Agent& a, const Step& s, size_t o = 0) { float v = s.f(o + 1), w = s.f(o + 2); int code = int(s.n(o, 0, 9)); if (code) fault(F_RECONF); else { countSample(v); countSample(w); } simtime(0.01); a.step(code, v, w); }
void start(Agent& a) { a.alloc(); a.construct(); a.setup(); }
void same(const char* key, const Agent& a, size_t ia, const Agent& b, size_t ib, const char* what) {
    size_t na = a.log.size() - ia, nb = b.log.size() - ib;
    for (size_t i = 0; i < std::min(na, nb); ++i) if (a.log[ia + i] != b.log[ib + i]) {
        float x, y; memcpy(&x, &a.log[ia + i], 4); memcpy(&y, &b.log[ib + i], 4);
        fail(key, "%s: %s: result %zu is %08x (%.9g), expected %08x (%.9g)", a.name(), what, i, a.log[ia + i], double(x), b.log[ib + i], double(y));
    }
    if (na != nb) fail(key, "%s: %s: %zu results, expected %zu", a.name(), what, na, nb);
    sh->compares += na;
}
void needOk(const Agent& a) { if (!a.configOk) fail("config.rejected", "%s: valid configuration call %s reported failure", a.name(), a.badCfg); }

// ------------------------------------------------------------------ P07
void gen07(Rng& r, Plan& p) {
    p.add("dirt", {double(r.below(5)), double(r.below(1 << 30))});
    p.add("agent", {double(pickKind(r)), double(r.below(1 << 30))});
    int rounds = 1 + int(r.below(4)); double pf = r.chance(0.3) ? 0 : r.uni(0.02, 0.4);
    for (int i = 0; i < rounds; ++i) {
        genOps(r, p, "op", -1, 1 + int(r.below(r.chance(0.1) ? 300 : 30)), pf, r.chance(0.5) ? 0.15 : 0);
        p.add("reset", {double(r.below(3)), double(r.below(1 << 30))});
        genOps(r, p, "op", -1, 1 + int(r.below(40)), r.chance(0.5) ? 0 : pf, r.chance(0.4) ? 0.1 : 0);
    }
}
void exec07(const Plan& p) {
    std::unique_ptr<Agent> a, f; size_t ia = 0; int how = 0;
    for (auto& s : p.s) switch (s.h) {
        case H("dirt"): setDirt(int(s.n(0, 0, 4)), uint64_t(s.n(1, 0, 1 << 30))); break;
        case H("agent"): if (a) break; a = makeAgent(int(s.n(0, 0, KINDS - 1)), uint64_t(s.n(1, 0, 1 << 30))); start(*a); break;
        case H("op"): if (!a) break; doStep(*a, s); if (f) { doStep(*f, s); same(how ? "setup.history" : "reset.history", *a, ia, *f, 0, how ? "after being set up again, behaviour differs from a new object" : "after reset, behaviour differs from a new object"); } break;
        case H("reset"): {
            if (!a) break; fault(F_RESET); a->sync(); how = int(s.n(0, 0, 2));
            if (how == 2) { Rng r(uint64_t(s.n(1, 0, 1 << 30))); a->renew(r); }
            if (a->rebuild()) a->construct(); else if (how) a->setup(); else a->reset();
            f = a->twin(); start(*f); a->log.clear(); ia = 0; break;
        }
        default: break;
    }
    if (a) needOk(*a);
    memCheck("memory.canary");
}
Reg r07("P07", gen07, exec07);

// ------------------------------------------------------------------ P08
struct Task { std::unique_ptr<Agent> a; std::vector<const Step*> ops; ucontext_t ctx; std::vector<char> stack; bool done = false; };
std::vector<Task>* tasks; ucontext_t mainCtx; int cur = -1; std::vector<std::pair<uint64_t, int>> sched; size_t schedPos;
void nextSlice() { if (schedPos < sched.size()) seam.fireAt = seam.count + sched[schedPos].first; else seam.fireAt = ~0ull; }
void onPreempt() {                                           // called disarmed; the seam arms again on return
    int target = sched[schedPos].second % int(tasks->size()); ++schedPos; nextSlice();
    for (size_t k = 0; k < tasks->size() && (*tasks)[size_t(target)].done; ++k) target = (target + 1) % int(tasks->size());
    if (target == cur || (*tasks)[size_t(target)].done) return;
    fault(F_PREEMPT); sh->switches++;
    int from = cur; cur = target; swapcontext(&(*tasks)[size_t(from)].ctx, &(*tasks)[size_t(target)].ctx);
}
void body(int i) {
    Task& t = (*tasks)[size_t(i)]; seam.armed = 0;
    t.a->construct(); t.a->setup();
    for (auto* s : t.ops) doStep(*t.a, *s, 1);
    t.done = true; seam.armed = 0;
    for (size_t k = 0; k < tasks->size(); ++k) if (!(*tasks)[k].done) { cur = int(k); setcontext(&(*tasks)[k].ctx); }
    setcontext(&mainCtx);
}
void gen08(Rng& r, Plan& p) {
    int n = 2 + int(r.below(3)); int kind = pickKind(r); bool mixed = r.chance(0.4);
    p.add("order", {double(r.below(2)), double(r.below(5)), double(r.below(1 << 30))});
    double seed = double(r.below(1 << 30)); bool clones = r.chance(0.4);     // clones: every task has the same configuration, so that all run the same code
    for (int i = 0; i < n; ++i) p.add("task", {double(mixed ? pickKind(r) : kind), clones ? seed : double(r.below(1 << 30))});
    for (int i = 0; i < n; ++i) genOps(r, p, "top", i, 2 + int(r.below(14)), r.chance(0.3) ? 0.1 : 0, 0.1);
    if (r.chance(0.6)) p.add("rr", {r.logu(1, 60), double(r.below(1 << 30)), std::floor(r.logu(30, 20000))});
    int sw = 10 + int(r.below(400)); double mean = r.logu(1, 300);
    for (int i = 0; i < sw; ++i) p.add("sw", {std::floor(1 + (r.chance(0.2) ? r.uni(0, 3) : -mean * std::log(1e-9 + r.uni()))), double(r.below(uint32_t(n)))});
}
void exec08(const Plan& p) {
    std::vector<Task> ts; bool soloFirst = true; std::vector<std::pair<int, uint64_t>> defs; sched.clear();
    for (auto& s : p.s) switch (s.h) {
        case H("order"): soloFirst = s.n(0, 0, 1); setDirt(int(s.n(1, 0, 4)), uint64_t(s.n(2, 0, 1 << 30))); break;
        case H("task"): if (defs.size() < 6) defs.push_back({int(s.n(0, 0, KINDS - 1)), uint64_t(s.n(1, 0, 1 << 30))}); break;
        case H("rr"): { Rng q(uint64_t(s.n(1, 0, 1 << 30))); double mean = s.r(0, 1, 1000, 10); long n = s.n(2, 0, 20000); while (n--) { uint64_t d = uint64_t(1 - mean * std::log(1e-9 + q.uni())); sched.push_back({d, int(q.below(6))}); } break; }
        case H("sw"): sched.push_back({uint64_t(s.n(0, 1, 100000)), int(s.n(1, 0, 5))}); break;
        default: break;
    }
    if (defs.empty()) return;
    std::vector<std::unique_ptr<Agent>> solo(defs.size());
    auto opsOf = [&](size_t i) { std::vector<const Step*> v; for (auto& s : p.s) if (s.h == H("top") && size_t(s.n(0, 0, 5)) == i) v.push_back(&s); return v; };
    auto runSolo = [&] { for (size_t i = 0; i < defs.size(); ++i) { solo[i] = makeAgent(defs[i].first, defs[i].second); start(*solo[i]); for (auto* s : opsOf(i)) doStep(*solo[i], *s, 1); } };
    if (soloFirst) runSolo();
    ts.resize(defs.size()); tasks = &ts;
    for (size_t i = 0; i < defs.size(); ++i) {
        ts[i].a = makeAgent(defs[i].first, defs[i].second); ts[i].a->alloc(); ts[i].ops = opsOf(i); ts[i].stack.resize(256 << 10);
        getcontext(&ts[i].ctx); ts[i].ctx.uc_stack.ss_sp = ts[i].stack.data(); ts[i].ctx.uc_stack.ss_size = ts[i].stack.size(); ts[i].ctx.uc_link = nullptr; makecontext(&ts[i].ctx, reinterpret_cast<void (*)()>(body), 1, int(i));
    }
    seam.count = 0; seam.handler = onPreempt; schedPos = 0; nextSlice(); cur = 0;
    volatile bool entered = false; getcontext(&mainCtx);
    if (!entered) { entered = true; setcontext(&ts[0].ctx); }
    seam.armed = 0; seam.handler = nullptr; seam.fireAt = ~0ull; sh->seamEvents += seam.count;
    if (!soloFirst) runSolo();
    for (size_t i = 0; i < ts.size(); ++i) { same("isolation", *ts[i].a, 0, *solo[i], 0, "results differ from those of the task running alone"); needOk(*ts[i].a); }
    memCheck("memory.canary");
}
Reg r08("P08", gen08, exec08);

// ------------------------------------------------------------------ P09
jmp_buf crashPoint; bool crashed;
void onCrash() { seam.armed = 0; seam.fireAt = ~0ull; noPreempt = 0; longjmp(crashPoint, 1); }
void gen09(Rng& r, Plan& p) {
    p.add("dirt", {double(r.below(5)), double(r.below(1 << 30))});
    p.add("agent", {double(pickKind(r)), double(r.below(1 << 30))});
    genOps(r, p, "op", -1, int(r.below(12)), r.chance(0.5) ? 0.2 : 0, 0);
    // where: 0 in the last operation, 1 in set-up, 2 in construction; how: 0 set up again in place, 1 created anew over the same memory, +2 with another configuration
    int where = r.chance(0.65) ? 0 : 1 + int(r.below(2)); p.add("crash", {double(where), double(r.below(4)), double(r.below(8)), sample(r, 5, 0.1), sample(r, 5, 0.1), double(r.below(100000)), double(r.below(1 << 30)), std::floor(r.logu(2, 64.99))});      // ..., how many crash points to try
    genOps(r, p, "post", -1, 2 + int(r.below(25)), r.chance(0.3) ? 0.1 : 0, r.chance(0.3) ? 0.1 : 0);
}
void exec09(const Plan& p) {
    int mode = 0; uint64_t mseed = 1; std::unique_ptr<Agent> proto; const Step* cr = nullptr; std::vector<const Step*> ops, post;
    for (auto& s : p.s) switch (s.h) {
        case H("dirt"): mode = int(s.n(0, 0, 4)); mseed = uint64_t(s.n(1, 0, 1 << 30)); break;
        case H("agent"): if (!proto) proto = makeAgent(int(s.n(0, 0, KINDS - 1)), uint64_t(s.n(1, 0, 1 << 30))); break;
        case H("op"): ops.push_back(&s); break; case H("crash"): if (!cr) cr = &s; break; case H("post"): post.push_back(&s); break; default: break;
    }
    if (!proto || !cr) return;
    int where = int(cr->n(0, 0, 2)), how = int(cr->n(1, 0, 3)); const bool other = how >= 2; how &= 1; if (where == 2 || proto->rebuild()) how = 1; Step cs{"c", 0, {cr->arg(2), cr->arg(3), cr->arg(4)}};
    // count the events of the call that will be cut short
    auto history = [&](Agent& a, bool arm, uint64_t at) {
        a.alloc(); seam.handler = onCrash; seam.fireAt = ~0ull; noPreempt = 0;
        auto go = [&] { seam.count = 0; if (arm) seam.fireAt = at; };
        if (where == 2) { go(); a.construct(); return; }
        a.construct(); if (where == 1) { go(); a.setup(); return; }
        a.setup(); for (auto* s : ops) doStep(a, *s); go(); doStep(a, cs);
    };
    setDirt(mode, mseed); auto probe = proto->twin(); history(*probe, false, 0); uint64_t E = seam.count; sh->seamEvents += E;
    const uint64_t P = uint64_t(cr->n(7, 1, 64, 64)), stride = E > P ? E / P + 1 : 1, off = stride > 1 ? uint64_t(cr->n(5, 0, 100000)) % stride : 0;
    for (uint64_t k = off; k < E; k += stride) {
        std::unique_ptr<Agent> a = proto->twin(); crashed = false;
        Agent* volatile ap = a.get();
        if (setjmp(crashPoint) == 0) { setDirt(mode, mseed); history(*ap, true, k); } else crashed = true;
        seam.armed = 0; seam.fireAt = ~0ull; seam.handler = nullptr;
        if (!crashed) continue;
        fault(F_CRASH); sh->switches++; cover(H("crash"), H(ap->name()), k, uint64_t(where));
        Agent& q = *ap; q.log.clear(); q.configOk = true;
        if (other) { Rng rr(uint64_t(cr->n(6, 0, 1 << 30))); q.renew(rr); }
        setDirt(0, 1); auto ref = q.twin(); start(*ref); for (auto* s : post) doStep(*ref, *s);
        if (how) q.construct();
        q.setup(); for (auto* s : post) doStep(q, *s);
        char what[120]; snprintf(what, sizeof what, "call cut short at event %llu of %llu, then %s: behaviour differs from a new object over clean memory", (unsigned long long)k, (unsigned long long)E, how ? "created anew over the same memory" : "set up again in place");
        same(how ? "crash.recreate" : "crash.setup", q, 0, *ref, 0, what); needOk(q);
    }
    memCheck("memory.canary");
}
Reg r09("P09", gen09, exec09);

// ------------------------------------------------------------------ P27
void gen27(Rng& r, Plan& p) {
    p.add("dirt", {double(r.below(5)), double(r.below(1 << 30))});
    p.add("agent", {double(pickKind(r)), double(r.below(1 << 30))});
    int pre = r.chance(0.4) ? 1 + int(r.below(4)) : 0; for (int i = 0; i < pre; ++i) p.add("pre", {double(r.below(9999))});
    int rounds = 1 + int(r.below(10));
    for (int i = 0; i < rounds; ++i) {
        genOps(r, p, "op", -1, int(r.below(12)), r.chance(0.2) ? 0.05 : 0, 0.12);
        int nb = 1 + int(r.below(3)); for (int k = 0; k < nb; ++k) p.add("bad", {double(r.below(9999)), r.uni()});
    }
    genOps(r, p, "op", -1, 3 + int(r.below(20)), 0, 0.1);
}
void exec27(const Plan& p) {
    std::unique_ptr<Agent> a, b; bool up = false;
    auto begin = [&] { if (a && !up) { up = true; a->setup(); b->setup(); } };
    for (auto& s : p.s) switch (s.h) {
        case H("dirt"): setDirt(int(s.n(0, 0, 4)), uint64_t(s.n(1, 0, 1 << 30))); break;
        case H("agent"): if (a) break; a = makeAgent(int(s.n(0, 0, KINDS - 1)), uint64_t(s.n(1, 0, 1 << 30))); b = a->twin(); a->alloc(); a->construct(); b->alloc(); b->construct(); break;
        case H("pre"): {
            if (!a || up) break; fault(F_BADCFG); int c = a->preCount(), k = c ? int(s.n(0, 0, 9999)) % c : 0; Bad r = a->pre(k); if (!r.what) break;
            cover(H("pre"), H(a->name()), uint64_t(k)); if (r.accepted) fail("badconfig.accepted", "%s: %s on an object that was not set up reported success", a->name(), r.what); break;
        }
        case H("bad"): {
            if (!a) break; begin(); fault(F_BADCFG); int c = a->badCount(), k = c ? int(s.n(0, 0, 9999)) % c : 0; a->bv = s.r(1, 0, 1, 0.3); Bad r = a->bad(k); if (!r.what) break;
            cover(H("bad"), H(a->name()), uint64_t(k)); if (r.accepted) fail("badconfig.accepted", "%s: invalid call %s reported success", a->name(), r.what); break;
        }
        case H("op"): if (!a) break; begin(); doStep(*a, s); doStep(*b, s); same("badconfig.effect", *a, 0, *b, 0, "behaviour differs from an object that never got the rejected calls"); break;
        default: break;
    }
    if (a && up) { needOk(*a); needOk(*b); }
    memCheck("memory.canary");
}
Reg r27("P27", gen27, exec27);

// ------------------------------------------------------------------ P26
void gen26(Rng& r, Plan& p) {
    int n = 1 + int(r.below(4));
    for (int i = 0; i < n; ++i) {
        p.add("dirt", {double(r.below(5)), double(r.below(1 << 30))}); p.add("agent", {double(pickKind(r)), double(r.below(1 << 30))});
        int rounds = 1 + int(r.below(3));
        for (int k = 0; k < rounds; ++k) { if (k == 0 && r.chance(0.3)) p.add("pre", {double(r.below(9999))}); genOps(r, p, "op", -1, 5 + int(r.below(60)), r.chance(0.3) ? 0 : r.uni(0, 0.6), r.uni(0, 0.3)); if (r.chance(0.5)) p.add("bad", {double(r.below(9999)), r.uni()}); if (r.chance(0.4)) p.add("reset", {double(r.below(5)), double(r.below(1 << 30))}); }
    }
}
void exec26(const Plan& p) {
    std::unique_ptr<Agent> a; bool up = false;
    for (auto& s : p.s) switch (s.h) {
        case H("dirt"): setDirt(int(s.n(0, 0, 4)), uint64_t(s.n(1, 0, 1 << 30))); break;
        case H("agent"): a = makeAgent(int(s.n(0, 0, KINDS - 1)), uint64_t(s.n(1, 0, 1 << 30))); a->alloc(); a->construct(); up = false; break;
        case H("pre"): if (a && !up) { fault(F_BADCFG); int c = a->preCount(); a->pre(c ? int(s.n(0, 0, 9999)) % c : 0); } break;
        case H("op"): if (!a) break; if (!up) { a->setup(); up = true; } doStep(*a, s); break;
        case H("bad"): if (a && up) { fault(F_BADCFG); a->bv = s.r(1, 0, 1, 0.3); int c = a->badCount(); a->bad(c ? int(s.n(0, 0, 9999)) % c : 0); } break;
        case H("reset"): if (a && up) { fault(F_RESET); long k = s.n(0, 0, 4); if (k >= 3) { Rng rr(uint64_t(s.n(1, 0, 1 << 30))); a->renew(rr); } if (a->rebuild() || k == 2 || k == 4) a->construct(); if (k == 0 && !a->rebuild()) a->reset(); else a->setup(); } break;
        default: break;
    }
    memCheck("memory.canary");
}
Reg r26("P26", gen26, exec26);
} // namespace
