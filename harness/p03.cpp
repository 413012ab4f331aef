// P03: every job once, workers joined, stop request honoured.
#include "h.h"
#include <thread>
using namespace H;

namespace {
    struct Round
    {
        // key of a job -> times begun, times ended
        std::map<std::string, std::pair<int, int>> jobs;
        int mode = -1;
    };
    struct P3
    {
        Cfg c;
        World* w = nullptr;
        Round cur;
        int gens = 0, inGen = 0;
        int lastStarted = -1;
        bool stopSeen = false;
        int stopDone = 0, stopInGen = 0;
    };
} // namespace

static std::string keyOf(P3& s, const Learn::Job& j)
{
    auto& g = s.w->graph();
    std::string k;
    if (auto a = dynamic_cast<const Learn::AdversarialJob*>(&j)) {
        k = "seat " + std::to_string(a->getPosOfStudiedRoot());
        for (auto r : a->getRoots())
            k += " V" + std::to_string(vertexIndex(g, r));
        // two identical line-ups are distinguished by their index
        k += " #" + std::to_string(a->getIdx());
    }
    else
        k = "V" + std::to_string(vertexIndex(g, j.getRoot()));
    return k;
}

static void checkRound(P3& s, const std::vector<const TPG::TPGVertex*>& roots,
                       const Results& r, const char* when)
{
    auto& g = s.w->graph();
    if (sim::liveThreads() != 1)
        sim::violation("thread_outlives_call",
                       "%d worker threads still live %s",
                       sim::liveThreads() - 1, when);
    for (auto& j : s.cur.jobs) {
        if (j.second.first != 1)
            sim::violation("job_repeated", "job {%s} evaluated %d times %s",
                           j.first.c_str(), j.second.first, when);
        if (j.second.second != 1)
            sim::violation("job_lost", "job {%s} finished %d times %s",
                           j.first.c_str(), j.second.second, when);
    }
    size_t expected = roots.size();
    if (s.c.agent == AK_ADV) {
        size_t teams = (size_t)std::ceil(
            (double)s.c.p.nbIterationsPerPolicyEvaluation /
            (double)(s.c.env.seats * s.c.p.nbIterationsPerJob));
        expected *= teams * (size_t)s.c.env.seats;
    }
    else
        for (auto root : roots) {
            std::string k = "V" + std::to_string(vertexIndex(g, root));
            if (!s.cur.jobs.count(k))
                sim::violation("job_missing", "root %s not evaluated %s",
                               k.c_str(), when);
        }
    if (s.cur.jobs.size() != expected)
        sim::violation("job_count", "%zu jobs evaluated instead of %zu %s",
                       s.cur.jobs.size(), expected, when);
    std::map<const TPG::TPGVertex*, int> rep;
    for (auto& p : r) {
        rep[p.second]++;
        if (!p.first)
            sim::violation("null_result", "null result %s", when);
    }
    for (auto root : roots)
        if (rep[root] != 1)
            sim::violation("report_count", "root V%d reported %d times %s",
                           vertexIndex(g, root), rep[root], when);
    if (r.size() != roots.size())
        sim::violation("report_count", "%zu results for %zu roots %s",
                       r.size(), roots.size(), when);
    s.cur.jobs.clear();
}

PROP(P03)
{
    static P3 s;
    static JobObs jo;
    s.c = drawCfg(1 << AK_LEARN | 1 << AK_PAR | 1 << AK_CLASS |
                      1 << AK_CLASS_SEQ | 1 << AK_ADV,
                  4);
    Cfg& c = s.c;
    if (flip("threads", 85)) {
        static const size_t nt[] = {2, 3, 4, 6, 9, 16};
        c.p.nbThreads = pickOf("nbThreadsWide", nt);
    }
    c.env.copyable = !flip("notCopyable", 10);
    if (c.agent == AK_ADV && !c.env.copyable)
        c.p.nbThreads = 1;
    drawHeap();
    sim::raceDetection(false);
    sim::note("agentName", agentName(c.agent));
    drawSchedule();
    World w(c);
    s.w = &w;
    auto& la = *w.agent;
    struct NullBuf : std::streambuf
    {
        int overflow(int ch) override
        {
            return ch;
        }
    } nb;
    std::ostream os(&nb);
    Phases ph(la, os);
    volatile bool stop = false;
    int stopKind = (int)knob("stopKind", 0, 6);
    int64_t stopAt = knob("stopAt", 0, 30);
    int64_t stopPhase = knob("stopPhase", 0, 4);
    auto raise = [&] {
        if (stop)
            return;
        s.stopSeen = true;
        s.stopDone = s.gens;
        s.stopInGen = 0;
        stop = true;
        sim::fired(sim::F_STOP_REQUEST);
        sim::event("stop requested, %d generations done, in generation: %d",
                   s.gens, s.inGen);
    };
    bool raisedIn = false;
    auto phaseHook = [&](int p) {
        if (stopKind == 1 && p == (int)stopPhase && s.gens == stopAt % 4) {
            raise();
            raisedIn = true;
        }
    };
    std::vector<const TPG::TPGVertex*> roots;
    ph.newGen = [&](uint64_t n) {
        sim::OracleScope o;
        if ((int)n != s.gens)
            sim::violation("generation_order",
                           "generation %llu started after %d completed",
                           (unsigned long long)n, s.gens);
        s.inGen = 1;
        phaseHook(0);
    };
    ph.populated = [&] {
        sim::OracleScope o;
        if (sim::liveThreads() != 1 + (stopKind == 3 ? (stop ? 0 : 1) : 0) &&
            stopKind != 3)
            sim::violation("thread_outlives_call",
                           "%d worker threads live after population",
                           sim::liveThreads() - 1);
        roots = w.graph().getRootVertices();
        s.cur.jobs.clear();
        phaseHook(1);
    };
    ph.evaluated = [&](Results& r) {
        sim::OracleScope o;
        if (stopKind != 3)
            checkRound(s, roots, r, "in training evaluation");
        else
            s.cur.jobs.clear();
        phaseHook(2);
    };
    ph.decimated = [&] {
        sim::OracleScope o;
        roots = w.graph().getRootVertices();
        s.cur.jobs.clear();
        phaseHook(3);
    };
    ph.validated = [&](Results& r) {
        sim::OracleScope o;
        if (stopKind != 3)
            checkRound(s, roots, r, "in validation");
    };
    ph.end = [&] {
        sim::OracleScope o;
        phaseHook(4);
        s.inGen = 0;
        s.gens++;
        sim::event("generation done %d", s.gens);
    };
    jo.begin = [&](const Learn::Job& j, uint64_t, int,
                   Learn::LearningEnvironment&) {
        s.cur.jobs[keyOf(s, j)].first++;
        if (stopKind == 2 && (int64_t)s.cur.jobs.size() == stopAt)
            raise();
    };
    jo.end = [&](const Learn::Job& j, uint64_t, int,
                 const std::shared_ptr<Learn::EvaluationResult>&) {
        s.cur.jobs[keyOf(s, j)].second++;
    };
    g_jobs = &jo;
    la.init(c.seed);
    if (stopKind == 4)
        raise();
    std::thread stopper;
    if (stopKind == 3)
        stopper = std::thread([&] {
            int64_t n = stopAt * stopAt * 7;
            for (int64_t i = 0; i < n && !stop; i++)
                sim::yieldPoint();
            sim::OracleScope o;
            raise();
        });
    bool bar = flip("progressBar", 15);
    drawThreadFaults();
    uint64_t n;
    try {
        n = la.train(stop, bar);
    }
    catch (...) {
        stop = true;
        if (stopper.joinable())
            stopper.join();
        throw;
    }
    if (stopper.joinable())
        stopper.join();
    g_jobs = nullptr;
    if (sim::liveThreads() != 1)
        sim::violation("thread_outlives_call",
                       "%d worker threads live after train()",
                       sim::liveThreads() - 1);
    if ((int)n != s.gens)
        sim::violation("train_count",
                       "train() returned %llu, %d generations completed",
                       (unsigned long long)n, s.gens);
    if (n > (uint64_t)c.nbGen)
        sim::violation("train_count", "%llu generations instead of %d",
                       (unsigned long long)n, c.nbGen);
    if (!s.stopSeen && n != (uint64_t)c.nbGen)
        sim::violation("train_stopped", "%llu generations instead of %d",
                       (unsigned long long)n, c.nbGen);
    if (s.stopSeen && n < (uint64_t)c.nbGen) {
        // the generation in progress completes, no other one starts
        if ((int)n > s.stopDone + 1)
            sim::violation("stop_ignored",
                           "stop requested after %d generations, %llu done",
                           s.stopDone, (unsigned long long)n);
    }
    if (s.stopSeen && stopKind != 3 && n > (uint64_t)s.stopDone + 1)
        sim::violation("stop_ignored",
                       "stop requested after %d generations, %llu done",
                       s.stopDone, (unsigned long long)n);
    if (stopKind == 4 && n != 0)
        sim::violation("stop_ignored",
                       "stop requested before training, %llu generations done",
                       (unsigned long long)n);
    if (s.stopSeen && stopKind != 3 && raisedIn &&
        n != (uint64_t)s.stopDone + 1)
        sim::violation("stop_early",
                       "stop requested during generation %d, %llu done",
                       s.stopDone, (unsigned long long)n);
    if (s.stopSeen && stopKind == 3 && n > (uint64_t)s.stopDone + 1)
        sim::violation("stop_ignored",
                       "stop requested after %d generations, %llu done",
                       s.stopDone, (unsigned long long)n);
}
