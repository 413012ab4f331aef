// Training observed phase by phase: snapshots of the graph before and after
// population, results, survivors. Shared by several properties.
#ifndef X_TRAIN_H
#define X_TRAIN_H
#include "h.h"

namespace H {
    struct EdgeSnap
    {
        const TPG::TPGEdge* edge;
        const TPG::TPGVertex* dst;
        const Program::Program* prog;
        uint64_t id;
        std::string text; // lines and constants, without intron marks
    };
    struct VertexSnap
    {
        const TPG::TPGVertex* v;
        int64_t action; // -1: team
        bool root;
        std::vector<EdgeSnap> out;
        std::string text() const; // independent of the addresses
    };
    struct GraphSnap
    {
        std::vector<VertexSnap> vs;
        std::map<const TPG::TPGVertex*, size_t> idx;
        size_t nbEdges = 0;
        const VertexSnap* find(const TPG::TPGVertex* v) const
        {
            auto it = idx.find(v);
            return it == idx.end() ? nullptr : &vs[it->second];
        }
        std::vector<const VertexSnap*> roots() const
        {
            std::vector<const VertexSnap*> r;
            for (auto& x : vs)
                if (x.root)
                    r.push_back(&x);
            return r;
        }
        size_t nbRoots() const
        {
            return roots().size();
        }
        size_t nbRootTeams() const
        {
            size_t n = 0;
            for (auto& x : vs)
                n += x.root && x.action < 0;
            return n;
        }
    };
    GraphSnap snapGraph(const TPG::TPGGraph& g);
    // violation (class prefix "graph_") unless the graph is well formed
    void checkGraph(const TPG::TPGGraph& g, const Cfg& c, const ISet& is,
                    size_t maxEdges, const char* when);
    // structure only: edges listed once by both ends, live vertices, acyclic
    void checkLinks(const TPG::TPGGraph& g, const char* when,
                    bool acyclic = true);

    struct Train
    {
        World& w;
        GraphSnap pre;   // when the generation starts
        GraphSnap post;  // after population
        GraphSnap after; // after selection
        std::vector<std::pair<const TPG::TPGVertex*,
                              std::shared_ptr<Learn::EvaluationResult>>>
            results; // of the training evaluation, in order
        uint64_t gen = 0;
        int mode = 0; // 0 training, 1 validation
        std::function<void()> onStart, onPopulated, onEvaluated, onSelected,
            onEnd, onValidating;
        std::function<void(Results&)> onValidated;
        explicit Train(World& ww);
        ~Train();
        void generation(uint64_t n);

      private:
        std::unique_ptr<Phases> ph;
        std::unique_ptr<std::ostream> os;
        std::unique_ptr<std::streambuf> nb;
    };
    // effective lines (by dependency analysis) and constants
    std::string effective(const ISet& is, const Program::Program& p,
                          size_t nbReg, size_t nbCst,
                          std::vector<bool>* intron = nullptr);
    std::string programText(const Program::Program& p);
} // namespace H
#endif
