// P09: every decision follows the semantics of the policy graph.
#include "x_train.h"
#include <thread>
using namespace H;

namespace {
    struct Cur
    {
        std::vector<const TPG::TPGVertex*> roots;
    };
    struct S9
    {
        Cfg c;
        std::map<int, Cur> cur;
        uint64_t decisions = 0, ties = 0, deep = 0;
    };
} // namespace

static std::string pathText(TPG::TPGGraph& g,
                            const std::vector<const TPG::TPGVertex*>& p)
{
    std::string s;
    for (auto v : p)
        s += " V" + std::to_string(vertexIndex(g, v));
    return s;
}

PROP(P09)
{
    static S9 s;
    static JobObs jo;
    static Sink sink;
    s.c = drawCfg(1 << AK_LEARN | 1 << AK_PAR | 1 << AK_CLASS |
                      1 << AK_CLASS_SEQ | 1 << AK_ADV,
                  4);
    Cfg& c = s.c;
    if (flip("threads", 70) && c.agent != AK_LEARN && c.agent != AK_CLASS_SEQ)
        setParallelKnobs(c);
    if (flip("mostlyTeams", 40)) // deep graphs
        c.p.mutation.tpg.pEdgeDestinationIsAction = 0.0;
    if (flip("bigPrograms", 25))
        c.p.mutation.prog.maxProgramSize =
            (size_t)knob("maxProgramSize9", 15, 40);
    drawHeap();
    drawSchedule();
    sim::raceDetection(false);
    sim::note("agentName", agentName(c.agent));
    World w(c);
    Ref ref(*w.is, c.p.nbRegisters, c.p.nbProgramConstant);
    auto judge = [&](const TPG::TPGVertex* root, const EnvCore& data,
                     uint64_t got, const char* where) {
        uint64_t ties = 0;
        auto p = ref.path(root, data, nullptr, &ties);
        auto a = dynamic_cast<const TPG::TPGAction*>(p.back());
        if (!a)
            sim::violation("no_action", "a path ends on a team");
        s.decisions++;
        s.ties += ties;
        if (p.size() > 2)
            s.deep++;
        if (a->getActionID() != got)
            sim::violation("wrong_action",
                           "%s: from V%d the policy chooses action %llu (path "
                           "%s, %llu ties), action %llu was done",
                           where, vertexIndex(w.graph(), root),
                           (unsigned long long)a->getActionID(),
                           pathText(w.graph(), p).c_str(),
                           (unsigned long long)ties, (unsigned long long)got);
    };
    sink.keep = false;
    sink.on = [&](const Call& k, EnvCore* core) {
        if (k.kind != C_ACT)
            return;
        auto it = s.cur.find(k.tid);
        if (it == s.cur.end() || it->second.roots.empty())
            sim::violation("action_outside_job",
                           "an action is done outside of any evaluation");
        auto& r = it->second.roots;
        judge(r[core->nbAct % r.size()], *core, k.a, "training");
    };
    jo.begin = [&](const Learn::Job& j, uint64_t, int,
                   Learn::LearningEnvironment&) {
        Cur u;
        if (auto a = dynamic_cast<const Learn::AdversarialJob*>(&j))
            u.roots = a->getRoots();
        else
            u.roots = {j.getRoot()};
        s.cur[sim::currentTid()] = u;
    };
    jo.end = [&](const Learn::Job&, uint64_t, int,
                 const std::shared_ptr<Learn::EvaluationResult>&) {
        s.cur.erase(sim::currentTid());
    };
    g_sink = &sink;
    g_jobs = &jo;
    bool clear = flip("clearIntrons", 25);
    int64_t clearAt = knob("clearAt", 0, 3);
    w.agent->init(c.seed);
    for (int i = 0; i < c.nbGen; i++) {
        if (clear && i == clearAt)
            w.graph().clearProgramIntrons();
        w.agent->trainOneGeneration((uint64_t)i);
    }
    g_jobs = nullptr;
    sink.on = nullptr;

    // Several engines at the same time on the same graph, each with its data
    if (!c.env.copyable)
        return;
    int nt = (int)knob("engines", 1, 4);
    int evals = (int)knob("inferences", 1, 12);
    if (flip("clearIntrons2", 30))
        w.graph().clearProgramIntrons();
    auto roots = w.graph().getVertices(); // any vertex may be executed from
    auto one = [&](int k) {
        Learn::LearningEnvironment* le =
            k == 0 ? w.env.get() : w.env->clone();
        {
            auto srcs = le->getDataSources();
            Environment priv(w.is->set, srcs, c.p.nbRegisters,
                             c.p.nbProgramConstant);
            Archive arch(10, 0.5, (size_t)k);
            bool rec = (c.seed + (uint64_t)k) % 2;
            auto tee = w.graph().getFactory().createTPGExecutionEngine(
                priv, rec ? &arch : nullptr);
            auto core = coreOf(le);
            for (int i = 0; i < evals; i++) {
                le->reset((size_t)(k * 1000 + i), Learn::LearningMode::TESTING,
                          0, 0);
                auto root = roots[(size_t)(i * 7 + k) % roots.size()];
                if (!dynamic_cast<const TPG::TPGTeam*>(root) && i % 4)
                    continue;
                auto got = tee->executeFromRoot(*root);
                sim::OracleScope o;
                std::vector<const TPG::TPGEdge*> edges;
                uint64_t ties = 0;
                auto want = ref.path(root, *core, &edges, &ties);
                s.decisions++;
                s.ties += ties;
                if (got != want)
                    sim::violation("wrong_path",
                                   "engine %d follows %s instead of %s", k,
                                   pathText(w.graph(), got).c_str(),
                                   pathText(w.graph(), want).c_str());
            }
        }
        if (k)
            delete le;
    };
    std::vector<std::thread> th;
    for (int k = 1; k < nt; k++)
        th.emplace_back(one, k);
    one(0);
    for (auto& t : th)
        t.join();
    sim::probe("decisions", s.decisions);
    sim::probe("ties", s.ties);
    sim::probe("paths_through_several_teams", s.deep);
    g_sink = nullptr;
}
