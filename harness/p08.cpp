// P08: the policy graph stays well formed.
#include "mutator/tpgMutator.h"
#include "x_train.h"
using namespace H;

namespace {
    // Model of a graph under direct operations
    struct MEdge
    {
        const TPG::TPGEdge* e;
        int src, dst;
        const Program::Program* p;
    };
    struct MVertex
    {
        const TPG::TPGVertex* v;
        int64_t action; // -1 team
        std::vector<int> out, in; // edge ids
    };
    struct Model
    {
        std::map<int, MVertex> vs;
        std::map<int, MEdge> es;
        std::vector<int> vorder, eorder;
        int nextV = 0, nextE = 0;
    };
    template <class T> void drop(std::vector<T>& v, const T& x)
    {
        v.erase(std::remove(v.begin(), v.end(), x), v.end());
    }
} // namespace

static void compareModel(const Model& m, const TPG::TPGGraph& g,
                         const char* after)
{
    sim::OracleScope o;
    char when[100];
    snprintf(when, sizeof when, "after %s", after);
    checkLinks(g, when, false);
    auto vs = g.getVertices();
    if (vs.size() != m.vorder.size())
        sim::violation("graph_model", "%zu vertices instead of %zu %s",
                       vs.size(), m.vorder.size(), when);
    if (g.getEdges().size() != m.eorder.size())
        sim::violation("graph_model", "%zu edges instead of %zu %s",
                       g.getEdges().size(), m.eorder.size(), when);
    for (size_t i = 0; i < vs.size(); i++) {
        auto& x = m.vs.at(m.vorder[i]);
        if (vs[i] != x.v)
            sim::violation("graph_model", "vertex %zu is another one %s", i,
                           when);
        auto a = dynamic_cast<const TPG::TPGAction*>(vs[i]);
        if ((a ? (int64_t)a->getActionID() : -1) != x.action)
            sim::violation("graph_model", "vertex %zu changed its kind %s", i,
                           when);
        if (vs[i]->getOutgoingEdges().size() != x.out.size() ||
            vs[i]->getIncomingEdges().size() != x.in.size())
            sim::violation("graph_model",
                           "vertex %zu has %zu/%zu edges instead of %zu/%zu %s",
                           i, vs[i]->getOutgoingEdges().size(),
                           vs[i]->getIncomingEdges().size(), x.out.size(),
                           x.in.size(), when);
        size_t k = 0;
        for (auto e : vs[i]->getOutgoingEdges()) {
            auto& me = m.es.at(x.out[k++]);
            if (e != me.e || e->getDestination() != m.vs.at(me.dst).v ||
                e->getSource() != x.v || &e->getProgram() != me.p)
                sim::violation("graph_model",
                               "edge %zu of vertex %zu is not the expected one "
                               "%s",
                               k - 1, i, when);
        }
        if (!g.hasVertex(*vs[i]))
            sim::violation("graph_model", "hasVertex() denies vertex %zu %s", i,
                           when);
    }
}

static void direct()
{
    static sim::Rng r;
    r.seed((uint64_t)knob("historySeed", 0, 1000000000));
    int ops = (int)knob("nbOps", 5, 160);
    bool instrumented = flip("instrumentedGraph", 30);
    drawHeap();
    static EnvCfg ec;
    static EnvCore core(ec);
    static auto is = makeISet(1);
    static auto srcs = core.sources();
    static Environment env(is->set, srcs, 4, 0);
    uint64_t blocks;
    {
        sim::OracleScope o;
        blocks = sim::liveBlocks();
    }
    (void)blocks;
    auto factory = instrumented
                       ? std::unique_ptr<TPG::TPGFactory>(
                             new TPG::TPGInstrumentedFactory())
                       : std::make_unique<TPG::TPGFactory>();
    auto gp = std::make_shared<TPG::TPGGraph>(env, std::move(factory));
    TPG::TPGGraph& g = *gp;
    TPG::TPGGraph other(env);
    const TPG::TPGTeam& foreign = other.addNewTeam();
    const TPG::TPGAction& foreignAction = other.addNewAction(0);
    static Model m;
    auto addV = [&](const TPG::TPGVertex* v, int64_t a) {
        m.vs[m.nextV] = MVertex{v, a, {}, {}};
        m.vorder.push_back(m.nextV);
        return m.nextV++;
    };
    auto addE = [&](const TPG::TPGEdge* e, int s, int d,
                    const Program::Program* p) {
        m.es[m.nextE] = MEdge{e, s, d, p};
        m.eorder.push_back(m.nextE);
        m.vs[s].out.push_back(m.nextE);
        m.vs[d].in.push_back(m.nextE);
        return m.nextE++;
    };
    auto delE = [&](int id) {
        auto& e = m.es[id];
        drop(m.vs[e.src].out, id);
        drop(m.vs[e.dst].in, id);
        drop(m.eorder, id);
        m.es.erase(id);
    };
    auto anyV = [&] { return m.vorder[r.below(m.vorder.size())]; };
    auto anyE = [&] { return m.eorder[r.below(m.eorder.size())]; };
    std::set<uint64_t> used;
    for (int op = 0; op < ops; op++) {
        const char* what = "nothing";
        switch (r.below(15)) {
        case 0:
        case 1: {
            what = "addNewTeam";
            addV(&g.addNewTeam(), -1);
            break;
        }
        case 2: {
            what = "addNewAction";
            uint64_t a = r.below(6);
            if (!used.insert(a).second)
                break;
            addV(&g.addNewAction(a), (int64_t)a);
            break;
        }
        case 3:
        case 4:
        case 5:
        case 6: {
            what = "addNewEdge";
            if (m.vorder.empty())
                break;
            int s = anyV(), d = anyV();
            auto p = std::make_shared<Program::Program>(env);
            bool refused = false;
            const TPG::TPGEdge* e = nullptr;
            try {
                e = &g.addNewEdge(*m.vs[s].v, *m.vs[d].v, p);
            }
            catch (std::runtime_error&) {
                refused = true;
            }
            if (refused != (m.vs[s].action >= 0))
                sim::violation("graph_refusal",
                               "edge from a %s: %s",
                               m.vs[s].action >= 0 ? "action" : "team",
                               refused ? "refused" : "accepted");
            if (e)
                addE(e, s, d, p.get());
            else
                sim::probe("edge_refused");
            break;
        }
        case 7: {
            what = "addNewEdge to another graph";
            if (m.vorder.empty())
                break;
            bool refused = false;
            try {
                auto p = std::make_shared<Program::Program>(env);
                if (r.chance(0.5))
                    g.addNewEdge(*m.vs[anyV()].v, foreign, p);
                else
                    g.addNewEdge(foreign, *m.vs[anyV()].v, p);
            }
            catch (std::runtime_error&) {
                refused = true;
            }
            if (!refused)
                sim::violation("graph_refusal",
                               "an edge to a vertex of another graph was "
                               "accepted");
            break;
        }
        case 8: {
            what = "removeEdge";
            if (m.eorder.empty())
                break;
            int e = anyE();
            g.removeEdge(*m.es[e].e);
            delE(e);
            break;
        }
        case 9: {
            what = "cloneEdge";
            if (m.eorder.empty())
                break;
            auto e = m.es[anyE()];
            addE(&g.cloneEdge(*e.e), e.src, e.dst, e.p);
            break;
        }
        case 10: {
            what = "setEdgeDestination";
            if (m.eorder.empty())
                break;
            int id = anyE();
            if (r.chance(0.15)) {
                if (g.setEdgeDestination(*m.es[id].e, foreignAction))
                    sim::violation("graph_refusal",
                                   "destination in another graph accepted");
                break;
            }
            int d = anyV();
            if (!g.setEdgeDestination(*m.es[id].e, *m.vs[d].v))
                sim::violation("graph_refusal",
                               "setEdgeDestination() refused live objects");
            drop(m.vs[m.es[id].dst].in, id);
            m.vs[d].in.push_back(id);
            m.es[id].dst = d;
            break;
        }
        case 11: {
            what = "setEdgeSource";
            if (m.eorder.empty())
                break;
            int id = anyE();
            if (r.chance(0.15)) {
                if (g.setEdgeSource(*m.es[id].e, foreign))
                    sim::violation("graph_refusal",
                                   "source in another graph accepted");
                break;
            }
            int s = anyV();
            bool ok = false;
            try {
                ok = g.setEdgeSource(*m.es[id].e, *m.vs[s].v);
            }
            catch (std::runtime_error&) {
            }
            if (ok != (m.vs[s].action < 0))
                sim::violation("graph_refusal",
                               "setEdgeSource() to a %s returned %d",
                               m.vs[s].action < 0 ? "team" : "action", (int)ok);
            if (!ok) {
                sim::probe("source_refused");
                break;
            }
            drop(m.vs[m.es[id].src].out, id);
            m.vs[s].out.push_back(id);
            m.es[id].src = s;
            break;
        }
        case 12: {
            what = "cloneVertex";
            if (m.vorder.empty())
                break;
            int id = anyV();
            if (m.vs[id].action >= 0)
                break; // action indices are unique
            auto n = &g.cloneVertex(*m.vs[id].v);
            int nv = addV(n, m.vs[id].action);
            auto outs = m.vs[id].out;
            // a self edge of the original leads to the original
            size_t k = 0;
            auto it = n->getOutgoingEdges().begin();
            if (n->getOutgoingEdges().size() != outs.size())
                sim::violation("graph_clone",
                               "the clone has %zu edges instead of %zu",
                               n->getOutgoingEdges().size(), outs.size());
            for (; k < outs.size(); k++, ++it) {
                auto src = m.es[outs[k]];
                addE(*it, nv, src.dst, src.p);
            }
            break;
        }
        case 13: {
            what = "removeVertex";
            if (m.vorder.empty() || r.chance(0.5))
                break;
            int id = anyV();
            g.removeVertex(*m.vs[id].v);
            auto del = m.vs[id].out;
            for (int e : m.vs[id].in)
                del.push_back(e);
            for (int e : del)
                if (m.es.count(e))
                    delE(e);
            if (m.vs[id].action >= 0)
                used.erase((uint64_t)m.vs[id].action);
            drop(m.vorder, id);
            m.vs.erase(id);
            break;
        }
        case 14: {
            if (r.chance(0.8)) {
                what = "removeVertex of another graph";
                g.removeVertex(foreign);
            }
            else if (r.chance(0.3)) {
                what = "clear";
                g.clear();
                m = Model();
                used.clear();
            }
            break;
        }
        }
        compareModel(m, g, what);
        if (other.getNbVertices() != 2)
            sim::violation("graph_other", "another graph was changed by %s",
                           what);
    }
    sim::stateHash((uint64_t)m.nextE * 1000 + (uint64_t)m.nextV);
}

PROP(P08)
{
    sim::raceDetection(false);
    if (flip("direct", 30)) {
        direct();
        return;
    }
    static Cfg c;
    c = drawCfg(1 << AK_LEARN | 1 << AK_PAR | 1 << AK_CLASS |
                    1 << AK_CLASS_SEQ | 1 << AK_ADV,
                6);
    auto& tp = c.p.mutation.tpg;
    tp.maxOutgoingEdges = (size_t)knob("maxOutgoing8", 2, 6);
    static const double rd[] = {0.0, 0.1, 0.25, 0.5, 0.7, 0.9, 1.0};
    c.p.ratioDeletedRoots = pickOf("ratioDeletedRoots8", rd);
    c.p.mutation.prog.maxProgramSize = (size_t)knob("maxProgramSize8", 2, 14);
    if (flip("threads", 50) && c.agent != AK_LEARN && c.agent != AK_CLASS_SEQ)
        setParallelKnobs(c);
    drawHeap();
    drawSchedule();
    sim::note("agentName", agentName(c.agent));
    World w(c);
    Train t(w);
    size_t maxEdges =
        std::max(tp.maxOutgoingEdges, tp.maxInitOutgoingEdges);
    auto check = [&](const char* when) {
        checkGraph(w.graph(), c, *w.is, maxEdges, when);
    };
    t.onPopulated = [&] { check("after population"); };
    t.onSelected = [&] { check("after selection"); };
    t.onEnd = [&] { check("at the end of a generation"); };
    w.agent->init(c.seed);
    {
        sim::OracleScope o;
        check("after initialisation");
        auto& g = w.graph();
        size_t n = 0;
        for (auto v : g.getVertices())
            n += dynamic_cast<const TPG::TPGAction*>(v) != nullptr;
        if (n != tp.nbActions)
            sim::violation("graph_actions", "%zu actions instead of %zu", n,
                           tp.nbActions);
        for (auto v : g.getVertices())
            if (v->getOutgoingEdges().size() > tp.maxInitOutgoingEdges &&
                v->getOutgoingEdges().size() > 2)
                sim::violation("graph_init_degree",
                               "a team has %zu edges after initialisation",
                               v->getOutgoingEdges().size());
    }
    for (int i = 0; i < c.nbGen; i++)
        t.generation((uint64_t)i);
    if (flip("reinit", 25)) {
        w.agent->init(c.seed + 1);
        sim::OracleScope o;
        check("after another initialisation");
    }
}
