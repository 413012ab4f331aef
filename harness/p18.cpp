// P18: mutated programs behave differently from what the archive has seen.
#include "x_train.h"
using namespace H;

namespace {
    struct Made
    { // program of an edge when the edge was created
        uint64_t id;
        std::string text, eff;
    };
    struct S18
    {
        Cfg c;
        const ISet* is = nullptr;
        std::map<const TPG::TPGEdge*, Made> made;
        size_t mutated = 0, close = 0, again = 0;
    };
    S18 s;

    // effective lines, with all their operands, and the constants they use
    std::string behaviour(const Program::Program& p)
    {
        size_t nbReg = s.c.p.nbRegisters, nbCst = s.c.p.nbProgramConstant;
        std::vector<bool> intron;
        effective(*s.is, p, nbReg, nbCst, &intron);
        std::ostringstream o;
        size_t nop = p.getEnvironment().getMaxNbOperands();
        for (size_t i = 0; i < p.getNbLines(); i++) {
            if (intron[i])
                continue;
            auto& l = p.getLine(i);
            auto& in = s.is->infos[l.getInstructionIndex()];
            o << l.getDestinationIndex() << "=" << l.getInstructionIndex();
            for (size_t k = 0; k < nop; k++) {
                auto& x = l.getOperand(k);
                o << " " << x.first << "." << x.second;
                if (k < in.ops.size() && nbCst && x.first == 1)
                    o << ":" << p.getConstantAt(x.second % nbCst).value;
            }
            o << ";";
        }
        return o.str();
    }

    template <class Base> struct Rec : Base
    {
        std::shared_ptr<TPG::TPGGraph> createTPGGraph(
            const Environment& env) const override
        {
            return std::make_shared<TPG::TPGGraph>(env,
                                                   std::make_unique<Rec>());
        }
        std::unique_ptr<TPG::TPGEdge> createTPGEdge(
            const TPG::TPGVertex* src, const TPG::TPGVertex* dest,
            const std::shared_ptr<Program::Program> prog) const override
        {
            auto e = Base::createTPGEdge(src, dest, prog);
            sim::OracleScope o;
            s.made[e.get()] = {prog->getId(), programText(*prog),
                               behaviour(*prog)};
            return e;
        }
    };

    void populated(Train& t)
    {
        World& w = t.w;
        const Archive& ar = w.agent->getArchive();
        Ref ref(*w.is, s.c.p.nbRegisters, s.c.p.nbProgramConstant);
        bool fresh = t.pre.nbRootTeams() == 0;
        std::map<uint64_t, const EdgeSnap*> before;
        for (auto& v : t.pre.vs)
            for (auto& e : v.out)
                before[e.id] = &e;
        std::map<uint64_t, std::vector<const TPG::TPGEdge*>> uses;
        std::map<const Program::Program*, uint64_t> byAddress;
        for (auto& v : t.post.vs)
            for (auto& e : v.out) {
                uses[e.id].push_back(e.edge);
                auto b = byAddress.emplace(e.prog, e.id);
                if (!b.second && b.first->second != e.id)
                    sim::violation("program_id", "a program has two ids");
                auto it = before.find(e.id);
                if (it != before.end() && it->second->text != e.text)
                    sim::violation("program_altered",
                                   "a program that existed before the "
                                   "population changed from %s to %s",
                                   it->second->text.c_str(), e.text.c_str());
            }
        // archived results by program, data by hash
        struct One
        {
            size_t hash;
            double v;
        };
        std::map<uint64_t, std::vector<One>> seen;
        for (size_t i = 0; i < ar.getNbRecordings(); i++) {
            auto& r = ar.at(i);
            seen[r.progId].push_back({r.dataHash, r.result});
        }
        for (auto& u : uses) {
            if (before.count(u.first))
                continue;
            auto e = u.second[0];
            auto m = s.made.find(e);
            if (m == s.made.end())
                continue; // edge built by other means
            const Program::Program& p = e->getProgram();
            if (fresh) {
                // random programs of the new graph, possibly cloned with
                // their team: only those that differ from the program of the
                // edge at its creation come from a mutation
                bool random = true;
                for (auto x : u.second) {
                    auto y = s.made.find(x);
                    random = random && y != s.made.end() &&
                             y->second.id == u.first;
                }
                if (random)
                    continue;
            }
            s.mutated++;
            if (u.second.size() != 1)
                sim::violation("program_shared",
                               "a program created by mutation belongs to %zu "
                               "edges",
                               u.second.size());
            if (s.c.p.mutation.tpg.forceProgramBehaviorChangeOnMutation &&
                behaviour(p) == m->second.eff)
                sim::violation("same_behaviour",
                               "the mutation of %s gave %s, with the same "
                               "effective lines and constants",
                               m->second.text.c_str(), programText(p).c_str());
            std::map<size_t, double> res;
            for (auto& d : ar.getDataHandlers())
                res[d.first] = ref.bidOnCopies(p, *w.core(), d.second);
            for (auto& g : seen) {
                bool all = !g.second.empty();
                size_t in = 0;
                for (auto& r : g.second) {
                    auto it = res.find(r.hash);
                    bool ok = it != res.end() &&
                              std::abs(it->second - r.v) <= 1e-4;
                    all = all && ok;
                    in += ok;
                }
                if (all)
                    sim::violation(
                        "not_unique",
                        "a mutated program gives the same results as an "
                        "archived one on its %zu recordings (first: %s and "
                        "%s)",
                        g.second.size(), bits(res[g.second[0].hash]).c_str(),
                        bits(g.second[0].v).c_str());
                if (in)
                    s.close++;
            }
        }
    }
} // namespace

PROP(P18)
{
    sim::setNbProcs(4);
    s.c = drawCfg(1 << AK_LEARN | 1 << AK_PAR | 1 << AK_CLASS |
                      1 << AK_CLASS_SEQ | 1 << AK_ADV,
                  5);
    Cfg& c = s.c;
    c.p.mutation.tpg.forceProgramBehaviorChangeOnMutation =
        flip("forceChange18", 60);
    static const double ap[] = {1.0, 0.5, 0.2, 0.05, 0.02};
    c.p.archivingProbability = pickOf("archivingProbability18", ap);
    c.p.archiveSize = (size_t)knob("archiveSize18", 1, 80);
    if (flip("manyData", 15)) {
        // Archives with many data, most of them met by few programs
        static const double ad[] = {0.1, 0.2, 0.4};
        c.p.archivingProbability = pickOf("archivingProbabilityMany", ad);
        c.p.archiveSize = (size_t)knob("archiveSizeMany", 80, 300);
        c.p.mutation.tpg.nbRoots = (size_t)knob("nbRootsMany", 8, 14);
        c.p.nbIterationsPerPolicyEvaluation = 3;
        c.p.maxNbActionsPerEval = 5;
        c.env.dataLevels = 0;
        c.env.termMod = 0;
        c.env.overStart = false;
    }
    if (flip("tinyPrograms", 40))
        c.p.mutation.prog.maxProgramSize = (size_t)knob("size", 2, 6);
    if (flip("fewChanges", 40)) {
        static const double pd[] = {0.0, 0.1, 0.3};
        c.p.mutation.prog.pAdd = pickOf("pAdd18", pd);
        c.p.mutation.prog.pDelete = pickOf("pDelete18", pd);
        static const double pm[] = {0.1, 0.5, 1.0};
        c.p.mutation.prog.pMutate = pickOf("pMutate18", pm);
        c.p.mutation.prog.pSwap = pickOf("pSwap18", pm);
    }
    if (flip("threads", 60) && c.agent != AK_LEARN && c.agent != AK_CLASS_SEQ)
        setParallelKnobs(c);
    drawHeap();
    sim::raceDetection(false);
    sim::note("agentName", agentName(c.agent));
    drawSchedule();
    drawThreadFaults();
    Rec<TPG::TPGFactory> plain;
    Rec<TPG::TPGInstrumentedFactory> ins;
    g_factory = c.instrumented ? (const TPG::TPGFactory*)&ins : &plain;
    // the instructions have the same order in each set
    auto is = makeISet(c.groups);
    s.is = is.get();
    {
        World w(c);
        Train t(w);
        t.onPopulated = [&] { populated(t); };
        w.agent->init(c.seed);
        for (int i = 0; i < c.nbGen; i++)
            t.generation((uint64_t)i);
        if (flip("again", 15)) {
            w.agent->init(c.seed + 1);
            t.generation(0);
            t.generation(1);
        }
    }
    g_factory = nullptr;
    if (s.mutated)
        sim::probe("mutated_programs", s.mutated);
    if (s.close)
        sim::probe("partly_seen_results", s.close);
}
