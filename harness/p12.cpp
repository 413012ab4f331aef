// P12: execution instrumentation counts exactly.
#include "x_train.h"
#include <thread>
#include "tpg/instrumented/executionStats.h"
#include "tpg/instrumented/tpgActionInstrumented.h"
#include "tpg/instrumented/tpgEdgeInstrumented.h"
#include "tpg/instrumented/tpgExecutionEngineInstrumented.h"
#include "tpg/instrumented/tpgInstrumentedFactory.h"
#include "tpg/instrumented/tpgTeamInstrumented.h"
#include "tpg/instrumented/tpgVertexInstrumentation.h"
using namespace H;

namespace {
    struct Counts
    {
        std::map<const TPG::TPGVertex*, uint64_t> v;
        std::map<const TPG::TPGEdge*, std::pair<uint64_t, uint64_t>> e;
        uint64_t inferences = 0, teams = 0, programs = 0, lines = 0;
        std::map<size_t, uint64_t> instr;
    };
    struct S12
    {
        Cfg c;
        std::map<int, std::vector<const TPG::TPGVertex*>> cur;
        Counts n;
    };
} // namespace

static void count(Counts& n, const std::vector<const TPG::TPGVertex*>& path,
                  const std::vector<const TPG::TPGEdge*>& edges)
{
    n.inferences++;
    for (auto v : path) {
        n.v[v]++;
        if (v != path.back())
            n.teams++;
        if (dynamic_cast<const TPG::TPGTeam*>(v))
            for (auto e : v->getOutgoingEdges()) {
                n.e[e].first++;
                n.programs++;
                auto& p = e->getProgram();
                n.lines += p.getNbLines();
                for (size_t i = 0; i < p.getNbLines(); i++)
                    n.instr[p.getLine(i).getInstructionIndex()]++;
            }
    }
    for (auto e : edges)
        n.e[e].second++;
}

static void compare(S12& s, TPG::TPGGraph& g, const char* when)
{
    for (auto v : g.getVertices()) {
        auto i = dynamic_cast<const TPG::TPGVertexInstrumentation*>(v);
        if (!i)
            sim::violation("not_instrumented",
                           "V%d has no counter %s", vertexIndex(g, v), when);
        uint64_t want = s.n.v.count(v) ? s.n.v[v] : 0;
        if (i->getNbVisits() != want)
            sim::violation("vertex_visits",
                           "V%d counts %llu visits instead of %llu %s",
                           vertexIndex(g, v),
                           (unsigned long long)i->getNbVisits(),
                           (unsigned long long)want, when);
    }
    size_t k = 0;
    for (auto& e : g.getEdges()) {
        auto i = dynamic_cast<const TPG::TPGEdgeInstrumented*>(e.get());
        if (!i)
            sim::violation("not_instrumented", "edge %zu has no counter %s", k,
                           when);
        auto it = s.n.e.find(e.get());
        uint64_t v = it == s.n.e.end() ? 0 : it->second.first;
        uint64_t t = it == s.n.e.end() ? 0 : it->second.second;
        if (i->getNbVisits() != v)
            sim::violation("edge_visits",
                           "edge %zu counts %llu visits instead of %llu %s", k,
                           (unsigned long long)i->getNbVisits(),
                           (unsigned long long)v, when);
        if (i->getNbTraversal() != t)
            sim::violation("edge_traversals",
                           "edge %zu counts %llu traversals instead of %llu %s",
                           k, (unsigned long long)i->getNbTraversal(),
                           (unsigned long long)t, when);
        k++;
    }
}
static void purge(S12& s, TPG::TPGGraph& g)
{
    std::set<const void*> live;
    for (auto v : g.getVertices())
        live.insert(v);
    for (auto& e : g.getEdges())
        live.insert(e.get());
    for (auto it = s.n.v.begin(); it != s.n.v.end();)
        if (!live.count(it->first))
            it = s.n.v.erase(it);
        else
            ++it;
    for (auto it = s.n.e.begin(); it != s.n.e.end();)
        if (!live.count(it->first))
            it = s.n.e.erase(it);
        else
            ++it;
}
static bool near(double a, double b)
{
    return std::fabs(a - b) <=
           1e-9 * std::max({1.0, std::fabs(a), std::fabs(b)});
}

PROP(P12)
{
    static S12 s;
    static JobObs jo;
    static Sink sink;
    s.c = drawCfg(1 << AK_LEARN | 1 << AK_PAR | 1 << AK_CLASS |
                      1 << AK_CLASS_SEQ | 1 << AK_ADV,
                  4);
    Cfg& c = s.c;
    c.instrumented = true;
    if (flip("threads", 75) && c.agent != AK_LEARN && c.agent != AK_CLASS_SEQ)
        setParallelKnobs(c);
    if (flip("mostlyTeams", 40))
        c.p.mutation.tpg.pEdgeDestinationIsAction = 0.0;
    drawHeap();
    drawSchedule();
    sim::raceDetection(false);
    sim::note("agentName", agentName(c.agent));
    World w(c);
    auto& g = w.graph();
    Ref ref(*w.is, c.p.nbRegisters, c.p.nbProgramConstant);
    TPG::TPGInstrumentedFactory fac;
    sink.keep = false;
    sink.on = [&](const Call& k, EnvCore* core) {
        if (k.kind != C_ACT)
            return;
        auto it = s.cur.find(k.tid);
        if (it == s.cur.end())
            return;
        auto& r = it->second;
        std::vector<const TPG::TPGEdge*> edges;
        auto p = ref.path(r[(size_t)core->nbAct % r.size()], *core, &edges);
        count(s.n, p, edges);
    };
    jo.begin = [&](const Learn::Job& j, uint64_t, int,
                   Learn::LearningEnvironment&) {
        if (auto a = dynamic_cast<const Learn::AdversarialJob*>(&j))
            s.cur[sim::currentTid()] = a->getRoots();
        else
            s.cur[sim::currentTid()] = {j.getRoot()};
    };
    jo.end = [&](const Learn::Job&, uint64_t, int,
                 const std::shared_ptr<Learn::EvaluationResult>&) {
        s.cur.erase(sim::currentTid());
    };
    g_sink = &sink;
    g_jobs = &jo;
    Train t(w);
    int resetMask = (int)knob("resetMask", 0, 15);
    t.onStart = [&] {
        if (t.pre.nbRootTeams() == 0)
            s.n = Counts();
        purge(s, g);
    };
    t.onPopulated = [&] { compare(s, g, "after population"); };
    t.onEvaluated = [&] { compare(s, g, "after the training evaluation"); };
    t.onSelected = [&] {
        purge(s, g);
        compare(s, g, "after selection");
    };
    t.onValidated = [&](Results&) { compare(s, g, "after validation"); };
    w.agent->init(c.seed);
    for (int i = 0; i < c.nbGen; i++) {
        if (resetMask & 1 << i) {
            fac.resetTPGGraphCounters(g);
            sim::OracleScope o;
            s.n = Counts();
            compare(s, g, "after a reset");
        }
        t.generation((uint64_t)i);
    }
    g_jobs = nullptr;

    // A measured run: engines in parallel, from the roots
    if (!c.env.copyable)
        return;
    fac.resetTPGGraphCounters(g);
    s.n = Counts();
    auto roots = g.getRootVertices();
    int nt = (int)knob("engines", 1, 4);
    int evals = (int)knob("inferences", 1, 12);
    static const int wm[] = {0, 0, 1, 3};
    int clearAt = pickOf("clearTraceAt", wm);
    std::vector<std::vector<std::vector<const TPG::TPGVertex*>>> traces(
        (size_t)nt);
    std::vector<std::pair<size_t, size_t>> done; // root, state
    auto body = [&](int k) {
        Learn::LearningEnvironment* le =
            k == 0 ? w.env.get() : w.env->clone();
        auto srcs = le->getDataSources();
        auto priv = new Environment(w.is->set, srcs, c.p.nbRegisters,
                                    c.p.nbProgramConstant);
        auto tee = g.getFactory().createTPGExecutionEngine(*priv, nullptr);
        auto& ti = dynamic_cast<TPG::TPGExecutionEngineInstrumented&>(*tee);
        auto core = coreOf(le);
        for (int i = 0; i < evals; i++) {
            size_t ri = (size_t)(i * 5 + k) % roots.size();
            le->reset((size_t)(k * 1000 + i), Learn::LearningMode::TESTING, 0,
                      0);
            if (clearAt && i == clearAt) {
                ti.clearTraceHistory();
                sim::OracleScope o;
                traces[(size_t)k].clear();
            }
            auto got = tee->executeFromRoot(*roots[ri]);
            sim::OracleScope o;
            std::vector<const TPG::TPGEdge*> edges;
            auto want = ref.path(roots[ri], *core, &edges);
            if (got != want)
                sim::violation("instrumented_path",
                               "the instrumented engine follows another path");
            count(s.n, want, edges);
            traces[(size_t)k].push_back(want);
        }
        {
            sim::OracleScope o;
            if (ti.getTraceHistory() != traces[(size_t)k])
                sim::violation("trace_history",
                               "engine %d remembers %zu traces, %zu made, or "
                               "they differ",
                               k, ti.getTraceHistory().size(),
                               traces[(size_t)k].size());
        }
        return std::make_pair(std::move(tee), le);
    };
    typedef decltype(body(0)) EngPair;
    std::vector<EngPair> eng((size_t)nt);
    std::vector<std::thread> th;
    for (int k = 1; k < nt; k++)
        th.emplace_back([&, k] { eng[(size_t)k] = body(k); });
    eng[0] = body(0);
    for (auto& x : th)
        x.join();
    {
        sim::OracleScope o;
        compare(s, g, "after a measured run");
    }
    TPG::ExecutionStats st;
    int rounds = (int)knob("analyses", 1, 2);
    for (int round = 0; round < rounds; round++) {
        int k = round % nt;
        auto& ti = dynamic_cast<TPG::TPGExecutionEngineInstrumented&>(
            *eng[(size_t)k].first);
        st.analyzeExecution(ti, &g);
        sim::OracleScope o;
        double n = (double)s.n.inferences;
        auto cmp = [&](const char* what, double got, double total) {
            if (!near(got, total / n))
                sim::violation("statistics",
                               "average %s is %.17g instead of %.17g", what,
                               got, total / n);
        };
        cmp("teams", st.getAvgEvaluatedTeams(), (double)s.n.teams);
        cmp("programs", st.getAvgEvaluatedPrograms(), (double)s.n.programs);
        cmp("lines", st.getAvgExecutedLines(), (double)s.n.lines);
        auto& ai = st.getAvgNbExecutionPerInstruction();
        if (ai.size() != s.n.instr.size())
            sim::violation("statistics", "%zu instructions instead of %zu",
                           ai.size(), s.n.instr.size());
        for (auto& p : s.n.instr) {
            if (!ai.count(p.first))
                sim::violation("statistics", "instruction %zu is missing",
                               p.first);
            cmp("executions of an instruction", ai.at(p.first),
                (double)p.second);
        }
        // distributions
        std::map<size_t, size_t> dt, dp, dl;
        std::map<size_t, std::map<size_t, size_t>> di;
        std::map<const TPG::TPGVertex*, size_t> dv;
        auto& tr = traces[(size_t)k];
        if (st.getInferenceTracesStats().size() != tr.size())
            sim::violation("statistics", "%zu traces analysed instead of %zu",
                           st.getInferenceTracesStats().size(), tr.size());
        for (size_t i = 0; i < tr.size(); i++) {
            Counts one;
            count(one, tr[i], {});
            dt[one.teams]++;
            dp[one.programs]++;
            dl[one.lines]++;
            for (auto& p : one.instr)
                di[p.first][p.second]++;
            for (auto v : tr[i])
                dv[v]++;
            auto& x = st.getInferenceTracesStats()[i];
            if (x.trace != tr[i] || x.nbEvaluatedTeams != one.teams ||
                x.nbEvaluatedPrograms != one.programs ||
                x.nbExecutedLines != one.lines)
                sim::violation("statistics", "statistics of trace %zu differ",
                               i);
        }
        if (dt != st.getDistribEvaluatedTeams() ||
            dp != st.getDistribEvaluatedPrograms() ||
            dl != st.getDistribExecutedLines() ||
            di != st.getDistribNbExecutionPerInstruction() ||
            dv != st.getDistribUsedVertices())
            sim::violation("statistics", "a distribution differs");
        sim::probe("statistics_checked");
    }
    if (flip("clearUnused", 50)) {
        // what was never used can go: the same inferences decide the same
        fac.clearUnusedTPGGraphElements(g);
        sim::OracleScope o;
        checkLinks(g, "after clearUnusedTPGGraphElements()");
        for (auto v : g.getVertices())
            if (!s.n.v.count(v))
                sim::violation("unused_kept", "a vertex never visited is kept");
        for (auto& e : g.getEdges())
            if (!s.n.e.count(e.get()) || !s.n.e[e.get()].second)
                sim::violation("unused_kept",
                               "an edge never traversed is kept");
        size_t nv = 0, ne = 0;
        for (auto& p : s.n.v)
            nv += p.second > 0;
        for (auto& p : s.n.e)
            ne += p.second.second > 0;
        if (nv != g.getNbVertices() || ne != g.getEdges().size())
            sim::violation("used_removed",
                           "%zu vertices and %zu edges are left, %zu and %zu "
                           "were used",
                           g.getNbVertices(), g.getEdges().size(), nv, ne);
        for (int k = 0; k < nt; k++) {
            auto le = eng[(size_t)k].second;
            for (int i = clearAt; i < evals; i++) {
                le->reset((size_t)(k * 1000 + i), Learn::LearningMode::TESTING,
                          0, 0);
                auto& tr = traces[(size_t)k];
                size_t at = tr.size() - (size_t)(evals - i);
                if (at >= tr.size())
                    continue;
                auto p = ref.path(tr[at][0], *coreOf(le));
                if (p != tr[at])
                    sim::violation("used_removed",
                                   "a past inference now follows another path");
            }
        }
    }
    fac.resetTPGGraphCounters(g);
    {
        sim::OracleScope o;
        s.n = Counts();
        compare(s, g, "after a reset");
    }
    for (int k = 1; k < nt; k++) {
        eng[(size_t)k].first.reset();
        delete eng[(size_t)k].second;
    }
    g_sink = nullptr;
}
