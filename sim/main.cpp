// Worker: seeded runs, minimisation and replay. Every run is a forked child of a pristine parent.
#include "core.hpp"
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <time.h>
#include <unordered_set>
#include <algorithm>
#include <map>
#include <cmath>
#include <cstring>

namespace sim {
static std::vector<Prop>& props() { static std::vector<Prop> v; return v; }
void registerProp(const Prop& p) { props().push_back(p); }
}
using namespace sim;

static const Prop* find(const std::string& id) { for (auto& p : props()) if (id == p.id) return &p; return nullptr; }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }
static std::string errPath;

// Some plans use round numbers only (step size one, unit steps, set-points and parameters that are integers or eighths),
// as people do: equalities and ties that random reals never meet. Transfer functions keep their stable coefficients.
static void makePlan(const Prop& p, Rng& r, Plan& pl) {
    p.gen(r, pl); if (!r.chance(0.15)) return;
    bool lti = !strcmp(p.id, "P12") || !strcmp(p.id, "P13");
    for (auto& s : pl.s) {
        if (lti && s.h == H("setup")) continue;
        for (double& v : s.a) { double m = std::fabs(v); if (!(m < 1e6) || m < 1.0 / 32 || v == std::floor(v) || r.chance(0.15)) continue; if (m >= 0.75) v = std::round(v); else { v = std::round(v * 8) / 8; if (v == 0) v = 0.125; } }
    }
}
static void clearRun() {
    sh->status = 0; sh->key[0] = 0; sh->msg[0] = 0; sh->hash = 1469598103934665603ull; sh->trace = 0; sh->nsteps = 0; sh->nfaults = 0;
    sh->libcalls = sh->compares = sh->tight = sh->skipped = sh->seamEvents = sh->switches = sh->outOfDomain = 0; sh->simTime = 0;
}
static void accumulate() {
    sh->tot_libcalls += sh->libcalls; sh->tot_compares += sh->compares; sh->tot_tight += sh->tight; sh->tot_skipped += sh->skipped;
    sh->tot_seam += sh->seamEvents; sh->tot_switches += sh->switches; sh->tot_ood += sh->outOfDomain; sh->tot_simTime += sh->simTime; sh->tot_steps += sh->nsteps;
}
static std::string slurp(const std::string& p) {
    std::string s; FILE* f = fopen(p.c_str(), "r"); if (!f) return s;
    char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0 && s.size() < 60000) s.append(b, n);
    fclose(f); return s;
}
// returns 1 ok, 2 violation (sh->key, sh->msg set)
static int child(const Prop& p, const Plan* plan, uint64_t seed, double cpu) {
    clearRun();
    fflush(nullptr);
    pid_t c = fork();
    if (c < 0) { perror("fork"); exit(2); }
    if (c == 0) {
        int fd = open(errPath.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        if (fd >= 0) { dup2(fd, 2); close(fd); }
        itimerval it{}; it.it_value.tv_sec = long(cpu); it.it_value.tv_usec = long((cpu - double(long(cpu))) * 1e6);
        setitimer(ITIMER_PROF, &it, nullptr);
        rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
        Plan own; if (!plan) { Rng r(seed); makePlan(p, r, own); plan = &own; }
        arenaReset();
        sh->nsteps = plan->s.size();
        p.exec(*plan);
        memCheck("memory.canary");
        finish();
    }
    int st = 0;
    while (waitpid(c, &st, 0) < 0) {}
    if (sh->status != 0 && WIFEXITED(st) && WEXITSTATUS(st) == 0) return sh->status;
    sh->status = 2; sh->hash = 0;
    if (WIFSIGNALED(st)) {
        int sg = WTERMSIG(st);
        if (sg == SIGPROF) { snprintf(sh->key, sizeof sh->key, "hang"); snprintf(sh->msg, sizeof sh->msg, "run did not end within %.0f s of CPU time", cpu); }
        else { snprintf(sh->key, sizeof sh->key, "crash.signal%d", sg); snprintf(sh->msg, sizeof sh->msg, "library call died with signal %d", sg); }
    } else {
        std::string e = slurp(errPath), kind = "exit";
        size_t q = e.find("AddressSanitizer: ");
        if (q != std::string::npos) { size_t b = q + 18; size_t z = e.find_first_of(" \n", b); kind = "asan." + e.substr(b, z - b); }
        else if (e.find("out of bounds") != std::string::npos) kind = "bounds";
        snprintf(sh->key, sizeof sh->key, "%s", kind.c_str());
        snprintf(sh->msg, sizeof sh->msg, "%.1400s", e.c_str());
    }
    return 2;
}
static std::string esc(const std::string& s) {
    std::string o; for (char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if (uint8_t(ch) < 32) o += ' '; else o += ch; } return o;
}
static std::string planText(const Plan& p, size_t maxSteps) {
    std::string o; char b[64];
    for (size_t i = 0; i < p.s.size() && i < maxSteps; ++i) {
        o += p.s[i].op; for (double v : p.s[i].a) { snprintf(b, sizeof b, " %g", v); o += b; } o += "; ";
    }
    if (p.s.size() > maxSteps) { snprintf(b, sizeof b, "... (%zu steps)", p.s.size()); o += b; }
    return o;
}
static uint64_t seedOf(const std::string& id, uint64_t base, uint64_t idx) { return mix(mix(base, H(id.c_str())), idx); }

int main(int argc, char** argv) {
    std::string cmd = argc > 1 ? argv[1] : "", prop, out, file, bitmap, known; uint64_t base = 1, seed = 0; int worker = 0, nworkers = 1; double secs = 5, cpu = 20; uint64_t maxRuns = ~0ull;
    for (int i = 2; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--prop") prop = v; else if (k == "--base") base = strtoull(v.c_str(), nullptr, 0); else if (k == "--seed") seed = strtoull(v.c_str(), nullptr, 0);
        else if (k == "--worker") worker = atoi(v.c_str()); else if (k == "--nworkers") nworkers = atoi(v.c_str()); else if (k == "--secs") secs = atof(v.c_str());
        else if (k == "--out") out = v; else if (k == "--file") file = v; else if (k == "--bitmap") bitmap = v; else if (k == "--known") known = "," + v + ","; else if (k == "--cpu") cpu = atof(v.c_str()); else if (k == "--runs") maxRuns = strtoull(v.c_str(), nullptr, 0);
    }
    void* m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) { perror("mmap"); return 2; }
    sh = static_cast<Shared*>(m);
    char eb[256]; const char* td = getenv("SIM_TMP"); snprintf(eb, sizeof eb, "%s/simerr.%d", td ? td : "/tmp", int(getpid())); errPath = eb;
    struct Rm { ~Rm() { unlink(errPath.c_str()); } } rm;

    if (cmd == "run") {
        const Prop* p = find(prop); if (!p) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
        double t0 = now(); uint64_t runs = 0, nontriv = 0, dup = 0, determ = 0; std::vector<uint64_t> traces; std::unordered_set<uint64_t> seen; std::vector<std::string> samples;
        std::string vkey, vmsg; uint64_t vseed = 0; bool viol = false; uint64_t vidx = 0;
        uint64_t maxSteps = 0; std::map<std::string, uint64_t> knownHits;
        for (uint64_t i = uint64_t(worker); now() - t0 < secs && runs < maxRuns; i += uint64_t(nworkers)) {
            uint64_t s = seedOf(prop, base, i);
            int st = child(*p, nullptr, s, cpu);
            ++runs;
            if (st == 2 && known.find(std::string(",") + sh->key + ",") != std::string::npos) { knownHits[sh->key]++; accumulate(); continue; }
            if (st == 2) { viol = true; vkey = sh->key; vmsg = sh->msg; vseed = s; vidx = i; accumulate(); break; }
            uint64_t h = sh->hash, tr = sh->trace;
            accumulate();
            if (sh->nsteps > maxSteps) maxSteps = sh->nsteps;
            if (sh->libcalls > 0 && (sh->nfaults > 0 || sh->switches > 0)) { if (seen.insert(tr).second) { ++nontriv; traces.push_back(tr); } else ++dup; }
            if (samples.size() < 2 && worker == 0 && runs % 7 == 1) { Rng r(s); Plan pl; makePlan(*p, r, pl); char b[64]; snprintf(b, sizeof b, "seed %llu: ", (unsigned long long)s); samples.push_back(b + planText(pl, 40)); }
            if (runs % 101 == 1) {           // same seed twice must be the same execution
                Shared* keep = sh; uint64_t f0[F_COUNT]; memcpy(f0, (void*)keep->faults, sizeof f0);
                int st2 = child(*p, nullptr, s, cpu);
                memcpy((void*)keep->faults, f0, sizeof f0);
                if (st2 != st || sh->hash != h) { fprintf(stderr, "NONDETERMINISTIC prop=%s seed=%llu\n", prop.c_str(), (unsigned long long)s); return 3; }
                ++determ;
            }
        }
        double wall = now() - t0;
        FILE* f = fopen(out.c_str(), "w"); if (!f) { perror(out.c_str()); return 2; }
        fprintf(f, "{\"runs\":%llu,\"nontrivial\":%llu,\"dup\":%llu,\"determinism_rechecks\":%llu,\"wall\":%.3f,\"libcalls\":%llu,\"compares\":%llu,\"tight\":%llu,\"skipped\":%llu,\"seam_events\":%llu,\"switches\":%llu,\"out_of_domain\":%llu,\"plan_steps\":%llu,\"max_plan\":%llu,\"sim_time\":%.6g,\"faults\":{",
                (unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)dup, (unsigned long long)determ, wall, (unsigned long long)sh->tot_libcalls, (unsigned long long)sh->tot_compares, (unsigned long long)sh->tot_tight, (unsigned long long)sh->tot_skipped,
                (unsigned long long)sh->tot_seam, (unsigned long long)sh->tot_switches, (unsigned long long)sh->tot_ood, (unsigned long long)sh->tot_steps, (unsigned long long)maxSteps, sh->tot_simTime);
        bool first = true;
        for (int i = 0; i < F_COUNT; ++i) if (sh->faults[i]) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", faultName[i], (unsigned long long)sh->faults[i]); first = false; }
        fprintf(f, "},\"samples\":[");
        for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", esc(samples[i]).c_str());
        fprintf(f, "]");
        fprintf(f, ",\"known\":{"); { bool c = false; for (auto& k : knownHits) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", esc(k.first).c_str(), (unsigned long long)k.second); c = true; } } fprintf(f, "}");
        if (viol) fprintf(f, ",\"violation\":{\"key\":\"%s\",\"msg\":\"%s\",\"seed\":%llu,\"index\":%llu}", esc(vkey).c_str(), esc(vmsg).c_str(), (unsigned long long)vseed, (unsigned long long)vidx);
        fprintf(f, "}\n"); fclose(f);
        if (!bitmap.empty()) { FILE* b = fopen(bitmap.c_str(), "wb"); if (b) { fwrite((const void*)sh->cov, 1, sizeof sh->cov, b); fwrite((const void*)sh->pcs, 1, sizeof sh->pcs, b); uint64_t n = traces.size(); fwrite(&n, 8, 1, b); if (n) fwrite(traces.data(), 8, n, b); fclose(b); } }
        return viol ? 1 : 0;
    }
    if (cmd == "plan") { const Prop* p = find(prop); if (!p) return 2; Rng r(seed); Plan pl; makePlan(*p, r, pl); return savePlan(file.c_str(), prop, "-", pl, "generated") ? 0 : 2; }
    if (cmd == "replay") {
        std::string key; Plan pl; if (!loadPlan(file.c_str(), prop, key, pl)) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 2; }
        const Prop* p = find(prop); if (!p) return 2;
        int st = child(*p, &pl, 0, cpu);
        printf("RESULT status=%d key=%s hash=%016llx steps=%zu\n%s\n", st, st == 2 ? sh->key : "-", (unsigned long long)sh->hash, pl.s.size(), st == 2 ? sh->msg : "ok");
        return st == 2 ? 1 : 0;
    }
    if (cmd == "minimize") {
        const Prop* p = find(prop); if (!p) return 2;
        Rng r(seed); Plan pl; makePlan(*p, r, pl);
        if (child(*p, &pl, 0, cpu) != 2) { printf("NOREPRO\n"); return 2; }
        std::string key = sh->key; double t0 = now(); uint64_t tries = 0; size_t orig = pl.s.size();
        bool slow = key == "hang";
        auto bad = [&](const Plan& q) { ++tries; return child(*p, &q, 0, slow ? 3 : cpu) == 2 && key == sh->key; };
        auto timeLeft = [&] { return now() - t0 < secs; };
        // ddmin over steps
        size_t n = 2;
        while (pl.s.size() >= 2 && timeLeft()) {
            size_t len = (pl.s.size() + n - 1) / n; bool red = false;
            for (size_t st = 0; st < pl.s.size() && timeLeft(); st += len) {
                Plan q; for (size_t i = 0; i < pl.s.size(); ++i) if (i < st || i >= st + len) q.s.push_back(pl.s[i]);
                if (bad(q)) { pl = q; n = n > 2 ? n - 1 : 2; red = true; break; }
            }
            if (!red) { if (len <= 1) break; n = std::min(n * 2, pl.s.size()); }
        }
        // simplify arguments
        bool again = true;
        while (again && timeLeft()) {
            again = false;
            for (size_t i = 0; i < pl.s.size() && timeLeft(); ++i) for (size_t j = 0; j < pl.s[i].a.size() && timeLeft(); ++j) {
                double v = pl.s[i].a[j]; if (v == 0 || v == 1) continue;
                for (double c : {0.0, 1.0, std::trunc(v / 2), std::trunc(v), double(float(std::round(v * 10) / 10))}) {
                    if (c == v || (v == v && std::fabs(c) > std::fabs(v) * 1.2 && c != 1.0)) continue;
                    Plan q = pl; q.s[i].a[j] = c;
                    if (bad(q)) { pl = q; if (std::fabs(c) < std::fabs(v) && c != 0 && c != 1) again = true; break; }
                }
            }
        }
        if (child(*p, &pl, 0, cpu) != 2) return 2;
        char note[256]; snprintf(note, sizeof note, "seed %llu, %zu of %zu steps left after %llu candidate executions", (unsigned long long)seed, pl.s.size(), orig, (unsigned long long)tries);
        std::string nt = note; nt += "\n# "; for (char ch : std::string(sh->msg)) { nt += ch; if (ch == '\n') nt += "# "; }
        if (!savePlan(file.c_str(), prop, key, pl, nt)) return 2;
        printf("MINIMIZED key=%s steps=%zu of %zu\n", key.c_str(), pl.s.size(), orig);
        return 0;
    }
    fprintf(stderr, "usage: sim run|replay|minimize|plan ...\n");
    return 2;
}
