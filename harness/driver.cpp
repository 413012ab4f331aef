// simdrv run PROP SEED [PLANFILE]        one execution, one JSON line
// simdrv batch PROP BASE START STRIDE SECONDS MAXRUNS
#include "../sim/sim.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <string>
#include <poll.h>
#include <signal.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include "h.h"

namespace H {
    static PropEntry g_props[64];
    static int g_nProps = 0;
    void registerProp(const char* id, void (*fn)())
    {
        g_props[g_nProps++] = {id, fn};
    }
    extern uint64_t g_knobSeed;
} // namespace H

static void body(void* p)
{
    try {
        ((void (*)())p)();
    }
    catch (std::out_of_range& e) {
        if (H::mayBeK1(e))
            sim::skip("K1");
        throw;
    }
}
static void (*findProp(const char* id))()
{
    for (int i = 0; i < H::g_nProps; i++)
        if (!strcmp(H::g_props[i].id, id))
            return H::g_props[i].fn;
    fprintf(stderr, "unknown property %s\n", id);
    exit(2);
}

static void loadPlan(const char* path, sim::Plan& plan)
{
    std::ifstream f(path);
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        std::string k;
        is >> k;
        if (k == "knob") {
            std::string n;
            int64_t v;
            is >> n >> v;
            H::overrideKnob(n, v);
        }
        else if (k == "sched")
            plan.explicitSched = true;
        else if (k == "switch") {
            sim::SwitchRec r;
            is >> r.step >> r.tid;
            plan.switches.push_back(r);
        }
        else if (k == "faults")
            plan.explicitFaults = true;
        else if (k == "fault") {
            sim::FaultRec r;
            is >> r.op >> r.kind >> r.arg;
            plan.faults.push_back(r);
        }
        else if (k == "maxsteps")
            is >> plan.maxSteps;
    }
}

static uint64_t g_maxSteps = 60000000ull;

[[noreturn]] static void child(const char* prop, uint64_t seed,
                               const char* planFile, int outFd)
{
    auto fn = findProp(prop);
    sim::Plan plan;
    plan.seed = seed;
    plan.maxSteps = g_maxSteps;
    plan.softLimit = getenv("SIM_SOFT") != nullptr;
    H::g_knobSeed = seed;
    if (planFile)
        loadPlan(planFile, plan);
    int nul = open("/dev/null", O_RDWR);
    dup2(nul, 0);
    dup2(nul, 1);
    sim::start(plan, body, (void*)fn, outFd);
    _exit(98);
}

static double nowS()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

// returns the JSON line of the run
static std::string runOne(const char* prop, uint64_t seed, const char* plan,
                          double timeout)
{
    int p[2];
    if (pipe(p))
        exit(2);
    pid_t pid = fork();
    if (!pid) {
        close(p[0]);
        child(prop, seed, plan, p[1]);
    }
    close(p[1]);
    std::string out;
    char b[65536];
    double end = nowS() + timeout;
    bool timedOut = false;
    while (true) {
        struct pollfd pf = {p[0], POLLIN, 0};
        int left = (int)((end - nowS()) * 1000);
        if (left <= 0) {
            timedOut = true;
            break;
        }
        int r = poll(&pf, 1, left);
        if (r < 0)
            continue;
        if (r == 0)
            continue;
        ssize_t n = read(p[0], b, sizeof b);
        if (n <= 0)
            break;
        out.append(b, n);
        if (out.size() && out.back() == '\n')
            break;
    }
    close(p[0]);
    if (timedOut)
        kill(pid, SIGKILL);
    int st;
    waitpid(pid, &st, 0);
    if (timedOut) {
        char m[200];
        snprintf(m, sizeof m,
                 "{\"outcome\":\"timeout\",\"cls\":\"timeout\",\"msg\":\"wall "
                 "clock limit\",\"seed\":%llu}\n",
                 (unsigned long long)seed);
        return m;
    }
    if (out.empty()) {
        char m[200];
        snprintf(m, sizeof m,
                 "{\"outcome\":\"simerror\",\"cls\":\"died\",\"msg\":\"status "
                 "%d\",\"seed\":%llu}\n",
                 st, (unsigned long long)seed);
        return m;
    }
    return out;
}

int main(int argc, char** argv)
{
    int pers = personality(0xffffffff);
    if (!(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        personality(pers | ADDR_NO_RANDOMIZE);
        execv("/proc/self/exe", argv);
    }
    if (const char* m = getenv("SIM_MAXSTEPS"))
        g_maxSteps = strtoull(m, nullptr, 10);
    double tmo = getenv("SIM_TIMEOUT") ? atof(getenv("SIM_TIMEOUT")) : 120;
    if (argc >= 4 && !strcmp(argv[1], "run")) {
        std::string r = runOne(argv[2], strtoull(argv[3], nullptr, 10),
                               argc > 4 ? argv[4] : nullptr, tmo);
        fwrite(r.data(), 1, r.size(), stdout);
        return 0;
    }
    if (argc >= 8 && !strcmp(argv[1], "batch")) {
        uint64_t base = strtoull(argv[3], nullptr, 10);
        uint64_t start = strtoull(argv[4], nullptr, 10);
        uint64_t stride = strtoull(argv[5], nullptr, 10);
        double sec = atof(argv[6]);
        uint64_t maxRuns = strtoull(argv[7], nullptr, 10);
        const char* plan = argc > 8 ? argv[8] : nullptr;
        double end = nowS() + sec;
        for (uint64_t i = 0; i < maxRuns && nowS() < end; i++) {
            uint64_t n = start + i * stride;
            uint64_t seed = base * 1000003ull + n;
            std::string r = runOne(argv[2], seed, plan, tmo);
            fwrite(r.data(), 1, r.size(), stdout);
            fflush(stdout);
        }
        return 0;
    }
    fprintf(stderr, "usage\n");
    return 2;
}
