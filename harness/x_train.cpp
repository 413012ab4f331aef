#include "x_train.h"

namespace H {
    std::string programText(const Program::Program& p)
    {
        const Environment& env = p.getEnvironment();
        std::string s;
        char b[64];
        for (size_t i = 0; i < p.getNbLines(); i++) {
            const Program::Line& l = p.getLine(i);
            snprintf(b, sizeof b, "%d=%d(", (int)l.getDestinationIndex(),
                     (int)l.getInstructionIndex());
            s += b;
            for (size_t k = 0; k < env.getMaxNbOperands(); k++) {
                auto& o = l.getOperand(k);
                snprintf(b, sizeof b, "%d.%d ", (int)o.first, (int)o.second);
                s += b;
            }
            s += ");";
        }
        for (size_t k = 0; k < env.getNbConstant(); k++) {
            snprintf(b, sizeof b, " c%d=%d", (int)k,
                     (int)p.getConstantAt(k).value);
            s += b;
        }
        return s;
    }
    std::string VertexSnap::text() const
    {
        std::string s = action < 0 ? "team" : "action " + std::to_string(action);
        for (auto& e : out)
            s += "\n " + e.text;
        return s;
    }
    GraphSnap snapGraph(const TPG::TPGGraph& g)
    {
        GraphSnap s;
        for (auto v : g.getVertices()) {
            VertexSnap x;
            x.v = v;
            auto a = dynamic_cast<const TPG::TPGAction*>(v);
            x.action = a ? (int64_t)a->getActionID() : -1;
            x.root = v->getIncomingEdges().empty();
            for (auto e : v->getOutgoingEdges()) {
                auto& p = e->getProgram();
                x.out.push_back({e, e->getDestination(), &p, p.getId(),
                                 programText(p)});
            }
            s.idx[v] = s.vs.size();
            s.vs.push_back(std::move(x));
        }
        s.nbEdges = g.getEdges().size();
        return s;
    }

    void checkLinks(const TPG::TPGGraph& g, const char* when, bool acyclic)
    {
        auto vs = g.getVertices();
        std::map<const TPG::TPGVertex*, int> idx;
        for (size_t i = 0; i < vs.size(); i++) {
            if (!vs[i])
                sim::violation("graph_null", "null vertex %s", when);
            if (!idx.emplace(vs[i], (int)i).second)
                sim::violation("graph_vertex_twice",
                               "a vertex is listed twice %s", when);
        }
        if (g.getNbVertices() != vs.size())
            sim::violation("graph_count", "getNbVertices() is %zu for %zu %s",
                           g.getNbVertices(), vs.size(), when);
        std::set<const TPG::TPGEdge*> edges;
        for (auto& e : g.getEdges())
            edges.insert(e.get());
        if (edges.size() != g.getEdges().size())
            sim::violation("graph_edge_twice", "an edge is listed twice %s",
                           when);
        size_t outs = 0, ins = 0, roots = 0;
        for (size_t i = 0; i < vs.size(); i++) {
            auto v = vs[i];
            std::set<const TPG::TPGEdge*> seen;
            for (auto e : v->getOutgoingEdges()) {
                outs++;
                if (!edges.count(e))
                    sim::violation("graph_dead_edge",
                                   "V%zu lists an edge that is not in the "
                                   "graph %s",
                                   i, when);
                if (e->getSource() != v || !seen.insert(e).second)
                    sim::violation("graph_source",
                                   "V%zu lists an outgoing edge that is not "
                                   "its own, or twice, %s",
                                   i, when);
                if (!idx.count(e->getDestination()))
                    sim::violation("graph_dead_vertex",
                                   "an edge of V%zu leads outside of the "
                                   "graph %s",
                                   i, when);
            }
            seen.clear();
            for (auto e : v->getIncomingEdges()) {
                ins++;
                if (!edges.count(e))
                    sim::violation("graph_dead_edge",
                                   "V%zu lists an edge that is not in the "
                                   "graph %s",
                                   i, when);
                if (e->getDestination() != v || !seen.insert(e).second)
                    sim::violation("graph_destination",
                                   "V%zu lists an incoming edge that is not "
                                   "its own, or twice, %s",
                                   i, when);
            }
            roots += v->getIncomingEdges().empty();
        }
        if (outs != edges.size() || ins != edges.size())
            sim::violation("graph_edge_count",
                           "%zu edges, %zu listed by sources, %zu by "
                           "destinations %s",
                           edges.size(), outs, ins, when);
        auto rv = g.getRootVertices();
        if (rv.size() != roots || g.getNbRootVertices() != roots)
            sim::violation("graph_roots",
                           "%zu roots, %zu listed, getNbRootVertices() %zu %s",
                           roots, rv.size(), (size_t)g.getNbRootVertices(),
                           when);
        if (!acyclic)
            return;
        // Kahn
        std::vector<size_t> deg(vs.size());
        for (auto& e : g.getEdges())
            deg[idx[e->getDestination()]]++;
        std::vector<int> todo;
        for (size_t i = 0; i < vs.size(); i++)
            if (!deg[i])
                todo.push_back((int)i);
        size_t done = 0;
        while (!todo.empty()) {
            int i = todo.back();
            todo.pop_back();
            done++;
            for (auto e : vs[i]->getOutgoingEdges())
                if (!--deg[idx[e->getDestination()]])
                    todo.push_back(idx[e->getDestination()]);
        }
        if (done != vs.size())
            sim::violation("graph_cycle", "%zu vertices lie on a cycle %s",
                           vs.size() - done, when);
    }

    void checkGraph(const TPG::TPGGraph& g, const Cfg& c, const ISet& is,
                    size_t maxEdges, const char* when)
    {
        checkLinks(g, when);
        auto vs = g.getVertices();
        std::set<uint64_t> actions;
        std::map<const TPG::TPGVertex*, bool> leads;
        // acyclic: a fixed point is enough
        for (auto v : vs)
            leads[v] = false;
        for (size_t i = 0; i < vs.size(); i++) {
            auto v = vs[i];
            auto a = dynamic_cast<const TPG::TPGAction*>(v);
            if (a) {
                if (a->getActionID() >= c.p.mutation.tpg.nbActions)
                    sim::violation("graph_action", "V%zu has action %llu %s", i,
                                   (unsigned long long)a->getActionID(), when);
                if (!actions.insert(a->getActionID()).second)
                    sim::violation("graph_action", "action %llu twice %s",
                                   (unsigned long long)a->getActionID(), when);
                if (!v->getOutgoingEdges().empty())
                    sim::violation("graph_action_edge",
                                   "action V%zu has outgoing edges %s", i,
                                   when);
                leads[v] = true;
                continue;
            }
            size_t n = v->getOutgoingEdges().size();
            if (n < 2 || n > maxEdges)
                sim::violation("graph_degree", "team V%zu has %zu edges %s", i,
                               n, when);
        }
        bool more = true;
        while (more) {
            more = false;
            for (auto v : vs)
                if (!leads[v])
                    for (auto e : v->getOutgoingEdges())
                        if (leads[e->getDestination()]) {
                            leads[v] = true;
                            more = true;
                        }
        }
        for (size_t i = 0; i < vs.size(); i++)
            if (!leads[vs[i]])
                sim::violation("graph_no_action",
                               "no path leads V%zu to an action %s", i, when);
        std::set<const Program::Program*> progs;
        for (auto& e : g.getEdges())
            progs.insert(&e->getProgram());
        const auto& lp = c.p;
        int nsrc = 1 + (lp.nbProgramConstant > 0) + 1 + (c.env.nI > 0) +
                   (c.env.w > 0);
        for (auto p : progs) {
            if (p->getNbLines() > lp.mutation.prog.maxProgramSize)
                sim::violation("program_size", "a program has %zu lines %s",
                               p->getNbLines(), when);
            for (size_t i = 0; i < p->getNbLines(); i++) {
                auto& l = p->getLine(i);
                if (l.getInstructionIndex() >= is.infos.size())
                    sim::violation("program_instruction",
                                   "line %zu has instruction %llu of %zu %s", i,
                                   (unsigned long long)l.getInstructionIndex(),
                                   is.infos.size(), when);
                if (l.getDestinationIndex() >= lp.nbRegisters)
                    sim::violation("program_register",
                                   "line %zu writes register %llu of %zu %s", i,
                                   (unsigned long long)l.getDestinationIndex(),
                                   lp.nbRegisters, when);
                auto& in = is.infos[l.getInstructionIndex()];
                for (size_t k = 0; k < in.ops.size(); k++) {
                    int s = (int)l.getOperand(k).first;
                    if (s < 0 || s >= nsrc)
                        sim::violation("program_source",
                                       "operand %zu of line %zu designates "
                                       "source %d of %d %s",
                                       k, i, s, nsrc, when);
                    bool cst = lp.nbProgramConstant && s == 1;
                    int es = s - 1 - (lp.nbProgramConstant ? 1 : 0);
                    int kind = s == 0 ? 'r'
                               : cst  ? 'c'
                               : es == 0 ? 'd'
                               : (es == 1 && c.env.nI > 0) ? 'i'
                                                           : '2';
                    bool ok = false;
                    switch (in.ops[k]) {
                    case OK_DOUBLE:
                        ok = kind == 'r' || kind == 'd' || kind == '2';
                        break;
                    case OK_INT:
                        ok = kind == 'i';
                        break;
                    case OK_CONST:
                        ok = kind == 'c';
                        break;
                    case OK_DARR2:
                        ok = kind == 'r' || kind == 'd' || kind == '2';
                        break;
                    case OK_DARR22:
                        ok = kind == '2';
                        break;
                    }
                    if (!ok)
                        sim::violation("program_operand",
                                       "operand %zu of line %zu (%s) has "
                                       "source %d of a wrong type %s",
                                       k, i, in.name, s, when);
                }
            }
            for (size_t k = 0; k < lp.nbProgramConstant; k++) {
                int32_t v = p->getConstantAt(k).value;
                if (v < lp.mutation.prog.minConstValue ||
                    v > lp.mutation.prog.maxConstValue)
                    sim::violation("program_constant",
                                   "constant %zu is %d, outside of [%d, %d] %s",
                                   k, v, lp.mutation.prog.minConstValue,
                                   lp.mutation.prog.maxConstValue, when);
            }
        }
    }

    std::string effective(const ISet& is, const Program::Program& p,
                          size_t nbReg, size_t nbCst, std::vector<bool>* intron)
    {
        std::vector<bool> live(nbReg, false), keep(p.getNbLines(), false);
        live[0] = true;
        for (size_t i = p.getNbLines(); i-- > 0;) {
            auto& l = p.getLine(i);
            uint64_t d = l.getDestinationIndex();
            if (!live[d])
                continue;
            keep[i] = true;
            live[d] = false;
            auto& in = is.infos[l.getInstructionIndex()];
            for (size_t k = 0; k < in.ops.size(); k++)
                if (l.getOperand(k).first == 0) {
                    uint64_t loc = l.getOperand(k).second;
                    if (in.ops[k] == OK_DOUBLE)
                        live[loc % nbReg] = true;
                    else {
                        live[loc % (nbReg - 1)] = true;
                        live[loc % (nbReg - 1) + 1] = true;
                    }
                }
        }
        std::string s;
        char b[64];
        for (size_t i = 0; i < p.getNbLines(); i++) {
            if (!keep[i])
                continue;
            auto& l = p.getLine(i);
            snprintf(b, sizeof b, "%d=%d(", (int)l.getDestinationIndex(),
                     (int)l.getInstructionIndex());
            s += b;
            auto& in = is.infos[l.getInstructionIndex()];
            for (size_t k = 0; k < in.ops.size(); k++) {
                snprintf(b, sizeof b, "%d.%d ", (int)l.getOperand(k).first,
                         (int)l.getOperand(k).second);
                s += b;
            }
            s += ");";
        }
        for (size_t k = 0; k < nbCst; k++) {
            snprintf(b, sizeof b, " c%d=%d", (int)k,
                     (int)p.getConstantAt(k).value);
            s += b;
        }
        if (intron) {
            intron->clear();
            for (size_t i = 0; i < keep.size(); i++)
                intron->push_back(!keep[i]);
        }
        return s;
    }

    namespace {
        struct NullBuf : std::streambuf
        {
            int overflow(int c) override
            {
                return c;
            }
        };
    } // namespace
    Train::Train(World& ww) : w(ww)
    {
        nb = std::make_unique<NullBuf>();
        os = std::make_unique<std::ostream>(nb.get());
        ph = std::make_unique<Phases>(*w.agent, *os);
        ph->newGen = [this](uint64_t n) {
            sim::OracleScope o;
            gen = n;
            mode = 0;
            pre = snapGraph(w.graph());
            if (onStart)
                onStart();
        };
        ph->populated = [this] {
            sim::OracleScope o;
            post = snapGraph(w.graph());
            if (onPopulated)
                onPopulated();
        };
        ph->evaluated = [this](Results& r) {
            sim::OracleScope o;
            results.clear();
            for (auto& p : r)
                results.push_back({p.second, p.first});
            if (onEvaluated)
                onEvaluated();
        };
        ph->decimated = [this] {
            sim::OracleScope o;
            after = snapGraph(w.graph());
            if (onSelected)
                onSelected();
            mode = 1;
            if (w.cfg.p.doValidation && onValidating)
                onValidating();
        };
        ph->validated = [this](Results& r) {
            sim::OracleScope o;
            if (onValidated)
                onValidated(r);
            mode = 0;
        };
        ph->end = [this] {
            sim::OracleScope o;
            mode = 0;
            uint64_t h = 11;
            for (auto& x : after.vs) {
                auto t = x.text();
                h = fnv(t.data(), t.size(), h);
            }
            sim::stateHash(h);
            if (onEnd)
                onEnd();
        };
    }
    Train::~Train()
    {
    }
    void Train::generation(uint64_t n)
    {
        w.agent->trainOneGeneration(n);
    }
} // namespace H
