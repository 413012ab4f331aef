// P21: a failing environment does not hang, kill or corrupt the training.
#include "x_train.h"
#include <new>
#include <system_error>
using namespace H;

namespace {
    struct EnvFailure : std::runtime_error
    {
        int id;
        explicit EnvFailure(int i)
            : std::runtime_error("environment failure"), id(i)
        {
        }
    };
    struct OddFailure
    {
        int id;
    };
    struct S21
    {
        double p = 0;
        uint64_t mask = 0; // kinds of calls that may fail
        int type = 0;
        int next = 0;  // failures so far
        int left = 0;  // failures still allowed
        int tids = 0;  // threads in which the current call failed
        std::set<int> ids; // failures of the current call
        int reached = 0, several = 0, worker = 0;
    };
    S21 s;

    void hook(int where)
    {
        if (!(s.mask >> where & 1) || s.left <= 0)
            return;
        if (!sim::faultPoint(sim::F_ENV_THROW, s.p))
            return;
        int id;
        {
            sim::OracleScope o;
            id = ++s.next;
            s.left--;
            s.ids.insert(id);
            s.tids |= 1 << (sim::currentTid() & 31);
            sim::event("failure %d", id);
        }
        switch (s.type) {
        case 0:
            throw EnvFailure(id);
        case 1:
            throw OddFailure{id};
        case 3:
            throw std::bad_alloc();
        default:
            throw std::system_error(id, std::generic_category());
        }
    }

    void after(World& w, int envs, const char* what)
    {
        if (sim::liveThreads() != 1)
            sim::violation("thread_left", "%d threads still live after %s",
                           sim::liveThreads() - 1, what);
        sim::OracleScope o;
        if (g_liveEnvs != envs)
            sim::violation("environment_leak",
                           "%d clones of the environment remain after %s",
                           g_liveEnvs - envs, what);
        checkLinks(w.graph(), what);
        auto& ar = w.agent->getArchive();
        if (ar.getNbRecordings() > w.cfg.p.archiveSize)
            sim::violation("archive_size", "the archive holds %zu recordings",
                           (size_t)ar.getNbRecordings());
        std::set<size_t> used;
        for (size_t i = 0; i < ar.getNbRecordings(); i++) {
            used.insert(ar.at(i).dataHash);
            if (!ar.getDataHandlers().count(ar.at(i).dataHash))
                sim::violation("archive_data",
                               "a recording has no data after %s", what);
        }
        if (used.size() != ar.getNbDataHandlers())
            sim::violation("archive_data",
                           "%zu data for %zu used by the recordings after %s",
                           (size_t)ar.getNbDataHandlers(), used.size(), what);
    }

    // one call of the library during which the environment may fail; false
    // when it failed
    template <class F>
    bool guarded(World& w, int envs, int fails, const char* what, F f)
    {
        s.left = fails;
        s.ids.clear();
        s.tids = 0;
        int got = 0;
        auto reached = [&](int id) {
            got = id;
            if (!s.ids.count(id))
                sim::violation("other_failure",
                               "%s reported failure %d, which is not one of "
                               "this call",
                               what, id);
        };
        try {
            f();
        }
        catch (EnvFailure& e) {
            reached(e.id);
        }
        catch (OddFailure& e) {
            reached(e.id);
        }
        catch (std::system_error& e) {
            if (s.type != 2)
                sim::violation("other_failure", "%s threw %s", what, e.what());
            reached(e.code().value());
        }
        catch (std::bad_alloc&) {
            if (s.type != 3 || s.ids.empty())
                sim::violation("other_failure",
                               "%s reported a lack of memory that did not "
                               "occur",
                               what);
            got = -1;
        }
        s.left = 0;
        if (!got && !s.ids.empty())
            sim::violation("failure_lost",
                           "%s returned normally, although the environment "
                           "failed %zu times",
                           what, s.ids.size());
        sim::event("%s: %s", what, got ? "failed" : "ok");
        if (got) {
            s.reached++;
            s.several += s.ids.size() > 1;
            s.worker += (s.tids & ~1) != 0;
        }
        after(w, envs, what);
        return !got;
    }

    void failing(World& w, int envs, int nth)
    {
        auto& la = *w.agent;
        auto& r = sim::workRng();
        int n = 1 + (int)r.below(4);
        static const int fs[] = {1, 1, 2, 1000};
        for (int i = 0; i < n; i++) {
            int fails = fs[r.below(4)];
            switch (r.below(5)) {
            case 0:
            case 1:
                guarded(w, envs, fails, "trainOneGeneration()", [&] {
                    la.trainOneGeneration((uint64_t)(nth * 10 + i));
                });
                break;
            case 2: {
                auto m = (Learn::LearningMode)r.below(3);
                guarded(w, envs, fails, "evaluateAllRoots()",
                        [&] { la.evaluateAllRoots((uint64_t)i, m); });
                break;
            }
            case 3: {
                if (w.cfg.agent == AK_ADV)
                    break;
                auto roots = w.graph().getRootVertices();
                if (roots.empty())
                    break;
                auto v = roots[r.below(roots.size())];
                auto m = (Learn::LearningMode)r.below(3);
                guarded(w, envs, fails, "evaluateOneRoot()",
                        [&] { la.evaluateOneRoot((uint64_t)i, m, v); });
                break;
            }
            default: {
                volatile bool stop = false;
                guarded(w, envs, fails, "train()",
                        [&] { la.train(stop, false); });
                break;
            }
            }
        }
    }

    void scenario(const Cfg& c, bool compare)
    {
        RunDump fresh;
        std::string ref;
        int mode = (int)knob("retriedMode", 0, 2);
        int gens = (int)knob("before", 0, 2);
        g_failHook = nullptr;
        if (compare) {
            World w(c);
            trainAndDump(w, fresh);
        }
        if (compare) {
            World w(c);
            w.agent->init(c.seed + 3);
            for (int i = 0; i < gens; i++)
                w.agent->trainOneGeneration((uint64_t)i);
            auto res = w.agent->evaluateAllRoots(50,
                                                 (Learn::LearningMode)mode);
            sim::OracleScope o;
            ref = dumpResults(w.graph(), res);
        }
        {
            World w(c);
            int envs = g_liveEnvs;
            auto& la = *w.agent;
            // the same failures and calls each time
            sim::workRng().seed(c.seed + 77);
            sim::reseed(0, c.seed + 78);
            sim::reseed(2, c.seed + 79);
            la.init(c.seed + 3);
            g_failHook = hook;
            s.left = 0;
            for (int i = 0; i < gens; i++)
                la.trainOneGeneration((uint64_t)i);
            // an evaluation that fails, then is done again
            for (int k = 0; k < 3; k++)
                if (guarded(w, envs, k ? 1 : 1000, "evaluateAllRoots()", [&] {
                        auto x = la.evaluateAllRoots(
                            60, (Learn::LearningMode)mode);
                    }))
                    break;
                else if (k == 2 || sim::workRng().below(2)) {
                    auto res =
                        la.evaluateAllRoots(50, (Learn::LearningMode)mode);
                    sim::OracleScope o;
                    std::string got = dumpResults(w.graph(), res);
                    sim::probe("evaluation_retried");
                    if (compare && got != ref)
                        sim::violation(
                            "retried_differs",
                            "an evaluation made after one that failed differs "
                            "from the same one without failure: %s",
                            firstDiff(got, ref).c_str());
                    break;
                }
            failing(w, envs, 1);
            if (flip("inBetween", 30)) {
                la.init(c.seed + 5);
                failing(w, envs, 2);
            }
            if (compare) {
                RunDump again;
                trainAndDump(w, again);
                compareRuns("recovery_differs",
                            "training of a new agent and of one initialised "
                            "again after failures",
                            fresh, again);
            }
            g_failHook = nullptr;
        }
        s.ids.clear();
    }
} // namespace

PROP(P21)
{
    Cfg c = drawCfg(1 << AK_LEARN | 1 << AK_PAR | 1 << AK_CLASS |
                        1 << AK_CLASS_SEQ | 1 << AK_ADV,
                    2);
    c.groups |= 64;
    c.p.nbGenerations = 2;
    c.p.mutation.tpg.nbRoots = (size_t)knob("nbRoots21", 2, 10);
    if (flip("threads", 80) && c.agent != AK_LEARN && c.agent != AK_CLASS_SEQ)
        setParallelKnobs(c);
    static const double pf[] = {1.0, 0.3, 0.1, 0.03, 0.01, 0.003};
    s.p = pickOf("pFailure", pf);
    s.type = (int)knob("failureType", 0, 3);
    uint64_t all = 1 << C_RESET | 1 << C_ACT | 1 << C_SCORE | 1 << C_TERM |
                   1 << C_CLONE | 1 << C_SOURCES | 1 << C_INSTR;
    static const uint64_t ms[] = {1 << C_RESET, 1 << C_ACT,  1 << C_SCORE,
                                  1 << C_TERM,  1 << C_CLONE, 1 << C_SOURCES,
                                  1 << C_INSTR, all};
    s.mask = ms[knob("failingCalls", 0, 7)];
    if (flip("anyCall", 30))
        s.mask = all;
    drawHeap();
    sim::note("agentName", agentName(c.agent));
    sim::raceDetection(true);
    drawSchedule();
    drawThreadFaults();
    int envs0 = g_liveEnvs;
    uint64_t base = sim::liveBlocks();
    scenario(c, true);
    if (g_liveEnvs != envs0)
        sim::violation("environment_leak",
                       "%d environments remain after the agent and its "
                       "environment are destroyed",
                       g_liveEnvs - envs0);
    if (sim::liveBlocks() != base && sim::step() < 12000000) {
        // lazily created statics are created once: repeat
        sim::probe("leak_recheck");
        scenario(c, false);
        uint64_t b1 = sim::liveBlocks(), last = b1;
        bool grows = true;
        for (int i = 0; i < 2 && grows; i++) {
            scenario(c, false);
            grows = sim::liveBlocks() > last;
            last = sim::liveBlocks();
        }
        if (grows)
            sim::violation("leak",
                           "%llu blocks are not released by 2 repetitions of "
                           "a training whose environment fails",
                           (unsigned long long)(last - b1));
    }
    if (s.reached)
        sim::probe("failures_reported", s.reached);
    if (s.several)
        sim::probe("failures_in_several_jobs", s.several);
    if (s.worker)
        sim::probe("failures_in_created_threads", s.worker);
}
