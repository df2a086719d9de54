// Command line of the harness: forks one child per simulated run. Uninstrumented.
#include "sim.h"
#include "rt_internal.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <time.h>
#include <unistd.h>
#include <vector>
using namespace sim;

static double wall() {
    struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static std::string esc(const char *s) {
    std::string o;
    for (; *s; ++s) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}
static Result *R0;
struct Outcome { int status; };

static int run_once(ScenarioFn fn, const RunConfig &cfg, bool out) {
    // only the head needs clearing
    R0->violated = 0; R0->kind[0] = R0->msg[0] = R0->stack[0] = 0; R0->vthread = -1; R0->race_pc[0] = R0->race_pc[1] = 0;
    R0->hash = R0->schedhash = R0->steps = R0->switches = R0->threads = R0->sim_ns = 0;
    R0->nops = R0->nsched = R0->sched_overflow = R0->ncover = R0->ntags = R0->nnotes = 0; R0->notes[0] = 0;
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) {
        rt_parent(false);
        if (!out) {
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 1); dup2(fd, 2);
        }
        run_child(fn, cfg, R0);
        _exit(95);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0) {}
    int code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    if (code != 0 && !R0->violated) {
        R0->violated = code == 3 ? 0 : 2;      // 2: the simulation itself failed
        snprintf(R0->kind, sizeof R0->kind, "abnormal-end");
        snprintf(R0->msg, sizeof R0->msg, "the run ended with status %d without a verdict", code);
    }
    return code;
}
static void print_result(FILE *f, const char *scn, const char *prop, const RunConfig &cfg, bool sched) {
    fprintf(f, "{\"type\":\"result\",\"scenario\":\"%s\",\"property\":\"%s\",\"seed\":%llu,\"violated\":%d,\"kind\":\"%s\",\"msg\":\"%s\",\"stack\":\"%s\",\"thread\":%d,"
               "\"race\":[%llu,%llu],\"hash\":\"%016llx\",\"schedhash\":\"%016llx\",\"steps\":%llu,\"switches\":%llu,\"threads\":%llu,\"sim_ns\":%llu,\"nops\":%u,\"overflow\":%u,",
            scn, prop, (unsigned long long)cfg.seed, R0->violated, esc(R0->kind).c_str(), esc(R0->msg).c_str(), esc(R0->stack).c_str(), R0->vthread,
            (unsigned long long)R0->race_pc[0], (unsigned long long)R0->race_pc[1],
            (unsigned long long)R0->hash, (unsigned long long)R0->schedhash, (unsigned long long)R0->steps, (unsigned long long)R0->switches,
            (unsigned long long)R0->threads, (unsigned long long)R0->sim_ns, R0->nops, R0->sched_overflow);
    fprintf(f, "\"tags\":{");
    for (unsigned i = 0; i < R0->ntags; ++i) fprintf(f, "%s\"%s\":%llu", i ? "," : "", esc(R0->tags[i].name).c_str(), (unsigned long long)R0->tags[i].n);
    fprintf(f, "},\"notes\":\"%s\"", esc(R0->notes).c_str());
    if (sched) {
        fprintf(f, ",\"sched\":[");
        for (unsigned i = 0; i < R0->nsched; ++i)
            fprintf(f, "%s[%d,%d,%d,%llu]", i ? "," : "", R0->sched[i].tid, R0->sched[i].to, R0->sched[i].forced, (unsigned long long)R0->sched[i].local);
        fprintf(f, "]");
    }
    fprintf(f, "}\n");
    fflush(f);
}

int main(int argc, char **argv) {
    static char stdout_buffer[1 << 14];       // so that the first output of a run is no allocation
    setvbuf(stdout, stdout_buffer, _IOLBF, sizeof stdout_buffer);
    // the same addresses in every process: code is linked at a fixed address, heap and stacks are mapped at fixed
    // addresses; turn off randomisation for the rest (shared libraries, main stack, vdso)
    if (!getenv("SIM_NOEXEC")) {
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE)) {
            if (personality(p | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_NOEXEC", "1", 1); execv("/proc/self/exe", argv); }
        }
    }
    std::map<std::string, std::string> a;
    std::string cmd = argc > 1 ? argv[1] : "list";
    for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    if (cmd == "list") {
        for (auto &s : scenarios()) printf("%s %s\n", s.first.c_str(), s.second.second.c_str());
        return 0;
    }
    ScenarioFn fn = nullptr; std::string prop;
    for (auto &s : scenarios()) if (s.first == a["--scenario"]) { fn = s.second.first; prop = s.second.second; }
    if (!fn) { fprintf(stderr, "no such scenario\n"); return 2; }
    const std::string scn = a["--scenario"];
    rt_init();
    { // warm up one-time state (registries, locale, stdio, ...) once, before any fork
        int keep = dup(1), keep2 = dup(2), nul = open("/dev/null", O_WRONLY);
        if (!a.count("--verbose")) { dup2(nul, 1); dup2(nul, 2); }
        for (auto f : inits()) {     // only if it ends: the code under test may be broken
            pid_t p = fork();
            if (p == 0) { alarm(20); f(); _exit(0); }
            int st = 0; waitpid(p, &st, 0);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) f();
        }
        fflush(stdout); fflush(stderr);
        dup2(keep, 1); dup2(keep2, 2); close(keep); close(keep2); close(nul);
    }
    rt_parent(true);
    R0 = (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    RunConfig cfg;
    cfg.wall_s = a.count("--wall") ? atoi(a["--wall"].c_str()) : 60;
    if (cmd == "one") {
        cfg.seed = strtoull(a["--seed"].c_str(), nullptr, 0);
        cfg.verbose = a.count("--verbose");
        if (a.count("--sched")) {
            cfg.has_sched = true;
            FILE *f = fopen(a["--sched"].c_str(), "r");
            if (!f) { perror("sched"); return 2; }
            int x, y, z; unsigned long long l;
            while (fscanf(f, "%d %d %d %llu", &x, &y, &z, &l) == 4) { SchedEntry e; e.tid = x; e.to = y; e.forced = z; e.local = l; cfg.sched.push_back(e); }
            fclose(f);
        }
        if (a.count("--ops-off")) { const char *p = a["--ops-off"].c_str(); while (*p) { char *e; long v = strtol(p, &e, 10); if (e == p) break; cfg.ops_off.push_back(v); p = *e ? e + 1 : e; } }
        run_once(fn, cfg, cfg.verbose);
        print_result(stdout, scn.c_str(), prop.c_str(), cfg, a.count("--dump"));
        return R0->violated == 1 ? 1 : R0->violated ? 2 : 0;
    }
    if (cmd == "run") {
        uint64_t seed0 = strtoull(a["--seed0"].c_str(), nullptr, 0), stride = a.count("--stride") ? strtoull(a["--stride"].c_str(), nullptr, 0) : 1;
        uint64_t count = a.count("--count") ? strtoull(a["--count"].c_str(), nullptr, 0) : 100;
        double tmax = a.count("--time") ? atof(a["--time"].c_str()) : 1e9, t0 = wall();
        uint64_t maxviol = a.count("--max-violations") ? strtoull(a["--max-violations"].c_str(), nullptr, 0) : 8;
        FILE *out = fopen(a["--out"].c_str(), "w");
        if (!out) { perror("out"); return 2; }
        std::map<std::string, uint64_t> tags;
        std::set<uint64_t> sch, cov, hashes;
        uint64_t runs = 0, steps = 0, sw = 0, sim = 0, viol = 0, doubles = 0, thr = 0;
        double slow = 0; uint64_t slowseed = 0;
        for (uint64_t i = 0; i < count; ++i) {
            if (wall() - t0 > tmax) break;
            cfg.seed = seed0 + i * stride;
            double r0 = wall();
            run_once(fn, cfg, false);
            double dt = wall() - r0; if (dt > slow) { slow = dt; slowseed = cfg.seed; }
            ++runs; steps += R0->steps; sw += R0->switches; sim += R0->sim_ns; thr += R0->threads;
            for (unsigned k = 0; k < R0->ntags; ++k) tags[R0->tags[k].name] += R0->tags[k].n;
            if (sch.size() < 3000000) sch.insert(R0->schedhash);
            if (hashes.size() < 3000000) hashes.insert(R0->hash);
            for (unsigned k = 0; k < R0->ncover; ++k) cov.insert(R0->cover[k]);
            if (R0->violated) {
                print_result(out, scn.c_str(), prop.c_str(), cfg, false);
                if (++viol >= maxviol) break;
            } else if (i % 50 == 7) {
                uint64_t h = R0->hash, s = R0->schedhash, st = R0->steps;
                run_once(fn, cfg, false);
                ++doubles;
                if (R0->hash != h || R0->schedhash != s || R0->steps != st) {
                    fprintf(out, "{\"type\":\"nondeterminism\",\"scenario\":\"%s\",\"seed\":%llu,\"steps\":[%llu,%llu]}\n", scn.c_str(), (unsigned long long)cfg.seed, (unsigned long long)st, (unsigned long long)R0->steps);
                }
            }
        }
        fprintf(out, "{\"type\":\"summary\",\"scenario\":\"%s\",\"property\":\"%s\",\"seed0\":%llu,\"stride\":%llu,\"runs\":%llu,\"steps\":%llu,\"switches\":%llu,\"threads\":%llu,\"sim_ns\":%llu,\"violations\":%llu,\"doubles\":%llu,\"wall\":%.3f,\"slowest\":%.3f,\"slowest_seed\":%llu,\"tags\":{",
                scn.c_str(), prop.c_str(), (unsigned long long)seed0, (unsigned long long)stride, (unsigned long long)runs, (unsigned long long)steps, (unsigned long long)sw, (unsigned long long)thr, (unsigned long long)sim,
                (unsigned long long)viol, (unsigned long long)doubles, wall() - t0, slow, (unsigned long long)slowseed);
        bool first = true;
        for (auto &t : tags) { fprintf(out, "%s\"%s\":%llu", first ? "" : ",", esc(t.first.c_str()).c_str(), (unsigned long long)t.second); first = false; }
        fprintf(out, "}}\n");
        auto dump = [&](const char *ty, std::set<uint64_t> &s) {
            fprintf(out, "{\"type\":\"%s\",\"v\":\"", ty);
            for (uint64_t x : s) fprintf(out, "%016llx", (unsigned long long)x);
            fprintf(out, "\"}\n");
        };
        dump("sched", sch); dump("hash", hashes); dump("cover", cov);
        fclose(out);
        return 0;
    }
    return 2;
}
