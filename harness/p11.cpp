// P11: validation never influences training.
#include "x_train.h"
using namespace H;

namespace {
    struct Open
    {
        const TPG::TPGVertex* root = nullptr;
        std::vector<double> scores;
        int resets = 0;
        std::vector<std::vector<std::vector<uint64_t>>> tables;
    };
    struct S11
    {
        Cfg c;
        std::map<int, Open> open;
        std::map<const TPG::TPGVertex*, std::vector<Open>> evals;
        int mode = 0;
    };
    bool near(double a, double b)
    {
        return std::fabs(a - b) <=
               1e-9 * std::max({1.0, std::fabs(a), std::fabs(b)});
    }
} // namespace

static bool isClass(const Cfg& c)
{
    return c.agent == AK_CLASS || c.agent == AK_CLASS_SEQ;
}

// the result says nothing but this evaluation
static void judge(S11& s, TPG::TPGGraph& g, const TPG::TPGVertex* v,
                  const Learn::EvaluationResult& r, const char* when)
{
    auto it = s.evals.find(v);
    if (it == s.evals.end() || it->second.size() != 1)
        sim::violation("not_evaluated_once",
                       "V%d was evaluated %zu times %s", vertexIndex(g, v),
                       it == s.evals.end() ? (size_t)0 : it->second.size(),
                       when);
    Open& o = it->second[0];
    size_t n = s.c.p.nbIterationsPerPolicyEvaluation;
    if ((size_t)o.resets != n)
        sim::violation("iterations", "%d iterations instead of %zu %s",
                       o.resets, n, when);
    double want = 0;
    size_t weight = n;
    if (isClass(s.c)) {
        size_t k = (size_t)s.c.env.nbActions;
        weight = 0;
        for (auto& t : o.tables)
            for (size_t i = 0; i < k; i++) {
                uint64_t a = 0, p = 0;
                for (size_t j = 0; j < k; j++) {
                    a += t[i][j];
                    p += t[j][i];
                }
                weight += a;
                if (t[i][i])
                    want += 2.0 * (double)t[i][i] / (double)(a + p) /
                            (double)k / (double)n;
            }
    }
    else {
        for (double x : o.scores)
            want += x;
        want /= (double)n;
    }
    if (!near(want, r.getResult()))
        sim::violation("not_this_evaluation",
                       "V%d: result %.17g, this evaluation gives %.17g %s",
                       vertexIndex(g, v), r.getResult(), want, when);
    if (r.getNbEvaluation() != weight)
        sim::violation("not_this_evaluation",
                       "V%d: %zu evaluations counted, %zu made %s",
                       vertexIndex(g, v), r.getNbEvaluation(), weight, when);
}

PROP(P11)
{
    static S11 s;
    static JobObs jo;
    static Sink sink;
    s.c = drawCfg(1 << AK_LEARN | 1 << AK_PAR | 1 << AK_CLASS |
                      1 << AK_CLASS_SEQ,
                  4);
    Cfg& c = s.c;
    if (flip("threads", 50) && c.agent != AK_LEARN && c.agent != AK_CLASS_SEQ)
        setParallelKnobs(c);
    static const size_t me[] = {1, 2, 3, 4, 6, 10, 1000};
    c.p.maxNbEvaluationPerPolicy = pickOf("maxEval", me);
    sim::raceDetection(false);
    sim::note("agentName", agentName(c.agent));
    quietSchedule();
    RunDump a, b;
    c.p.doValidation = false;
    // The reference goes without validation.
    {
        World w(c);
        trainAndDump(w, a);
    }
    c.p.doValidation = true;
    drawHeap();
    drawSchedule();
    World w(c);
    auto& la = *w.agent;
    int extra = (int)knob("extraCalls", 0, 3);
    int where = (int)knob("extraWhere", 0, 2);
    uint64_t vgen = (uint64_t)knob("extraGeneration", 0, 5);
    sink.keep = false;
    sink.on = [&](const Call& k, EnvCore* core) {
        auto it = s.open.find(k.tid);
        if (it == s.open.end())
            return;
        Open& o = it->second;
        if (k.kind == C_RESET) {
            o.resets++;
            if ((int)k.b != s.mode)
                sim::violation("reset_mode", "reset in mode %d instead of %d",
                               (int)k.b, s.mode);
            o.tables.push_back(std::vector<std::vector<uint64_t>>(
                (size_t)c.env.nbActions,
                std::vector<uint64_t>((size_t)c.env.nbActions, 0)));
        }
        else if (k.kind == C_ACT && !o.tables.empty()) {
            uint64_t st = core->nbAct == 0 ? core->state : core->state >> 3;
            if (k.a < (uint64_t)c.env.nbActions)
                o.tables.back()[st % (uint64_t)c.env.nbActions][k.a]++;
        }
        else if (k.kind == C_SCORE)
            o.scores.push_back(k.x);
    };
    jo.begin = [&](const Learn::Job& j, uint64_t, int mode,
                   Learn::LearningEnvironment&) {
        if (mode != (int)Learn::LearningMode::TRAINING) {
            s.mode = mode;
            s.open[sim::currentTid()] = Open{j.getRoot()};
        }
    };
    jo.end = [&](const Learn::Job& j, uint64_t, int mode,
                 const std::shared_ptr<Learn::EvaluationResult>&) {
        if (mode == (int)Learn::LearningMode::TRAINING)
            return;
        s.evals[j.getRoot()].push_back(s.open[sim::currentTid()]);
        s.open.erase(sim::currentTid());
    };
    auto world = [&] {
        return dumpGraph(w.graph()) + "\nARCHIVE\n" +
               dumpArchive(la.getArchive()) + "\nBEST\n" + dumpBest(la) +
               "\nGENERATOR\n" + dumpRng(la.getRNG());
    };
    std::string before;
    bool checking = false;
    auto enter = [&] {
        sim::OracleScope o;
        before = world();
        s.evals.clear();
        checking = true;
    };
    auto leave = [&](const Results& r, size_t n, const char* when) {
        sim::OracleScope o;
        checking = false;
        if (r.size() != n)
            sim::violation("result_count", "%zu results for %zu roots %s",
                           r.size(), n, when);
        std::set<const TPG::TPGVertex*> seen;
        for (auto& p : r) {
            if (!seen.insert(p.second).second)
                sim::violation("result_count", "a root is reported twice %s",
                               when);
            judge(s, w.graph(), p.second, *p.first, when);
        }
        std::string now = world();
        if (now != before)
            sim::violation("validation_changes", "%s changes: %s", when,
                           firstDiff(before, now).c_str());
        sim::probe("evaluations_without_training");
    };
    auto extraCalls = [&] {
        for (int i = 0; i < extra; i++) {
            auto mode = knob("extraMode", 0, 1) ^ (i & 1)
                            ? Learn::LearningMode::TESTING
                            : Learn::LearningMode::VALIDATION;
            enter();
            auto roots = w.graph().getRootVertices();
            if (i == 2) {
                auto root = roots[(size_t)vgen % roots.size()];
                auto r = la.evaluateOneRoot(vgen, mode, root);
                Results rs;
                rs.emplace(r, root);
                leave(rs, 1, "in evaluateOneRoot()");
            }
            else {
                auto r = la.evaluateAllRoots(vgen, mode);
                leave(r, roots.size(), "in evaluateAllRoots()");
            }
        }
    };
    g_sink = &sink;
    g_jobs = &jo;
    Train t(w);
    t.onValidating = [&] { enter(); };
    t.onValidated = [&](Results& r) {
        leave(r, w.graph().getNbRootVertices(), "in validation");
    };
    // same phases as trainAndDump(), with extra evaluations in between
    struct Extra : Log::LALogger
    {
        std::function<void()> f;
        Extra(Learn::LearningAgent& a, std::ostream& os) : LALogger(a, os)
        {
        }
        void logHeader() override
        {
        }
        void logNewGeneration(uint64_t&) override
        {
        }
        void logAfterPopulateTPG() override
        {
        }
        void logAfterEvaluate(Results&) override
        {
        }
        void logAfterDecimate() override
        {
        }
        void logAfterValidate(Results&) override
        {
        }
        void logEndOfTraining() override
        {
            if (f)
                f();
        }
    };
    std::ostringstream none;
    Extra ex(la, none);
    if (where)
        ex.f = [&] { extraCalls(); };
    trainAndDump(w, b);
    RunDump b2;
    for (auto& p : b.parts)
        if (p.first.find("validation scores") == std::string::npos)
            b2.parts.push_back(p);
    compareRuns("validation_influences",
                "training with validation and training without", a, b2);
    if (!where)
        extraCalls();
    g_jobs = nullptr;
    g_sink = nullptr;
}
