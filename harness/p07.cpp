// P07: selection removes exactly the worst teams, population restores them.
#include "x_train.h"
using namespace H;

PROP(P07)
{
    static Cfg c;
    c = drawCfg(1 << AK_LEARN | 1 << AK_PAR | 1 << AK_CLASS |
                    1 << AK_CLASS_SEQ | 1 << AK_ADV,
                5);
    static const double rd[] = {0.0, 0.1, 0.25, 0.34, 0.5, 0.7, 0.9, 0.99, 1.0};
    c.p.ratioDeletedRoots = pickOf("ratioDeletedRoots7", rd);
    c.p.mutation.tpg.nbRoots = (size_t)knob("nbRoots7", 2, 24);
    if (flip("threads", 50) && c.agent != AK_LEARN && c.agent != AK_CLASS_SEQ)
        setParallelKnobs(c);
    bool cls = c.agent == AK_CLASS || c.agent == AK_CLASS_SEQ;
    if (cls)
        c.p.maxNbActionsPerEval = (uint64_t)knob("classActions", 1, 12);
    drawHeap();
    drawSchedule();
    sim::raceDetection(false);
    sim::note("agentName", agentName(c.agent));
    World w(c);
    Train t(w);
    t.onPopulated = [&] {
        size_t want = c.p.mutation.tpg.nbRoots, got = t.post.nbRoots();
        if (got < want)
            sim::violation("population_count",
                           "generation %llu: %zu roots after population, %zu "
                           "expected",
                           (unsigned long long)t.gen, got, want);
        size_t before = t.pre.nbRoots();
        if (t.pre.nbRootTeams() == 0) {
            sim::probe("graph_replaced");
            return;
        }
        if (got > std::max(want, before))
            sim::violation("population_count",
                           "generation %llu: %zu roots after population of %zu "
                           "up to %zu",
                           (unsigned long long)t.gen, got, before, want);
        size_t i = 0;
        for (auto& x : t.pre.vs) {
            auto y = t.post.find(x.v);
            if (!y)
                sim::violation("population_removed",
                               "generation %llu: population removed V%zu",
                               (unsigned long long)t.gen, i);
            bool same = x.action == y->action && x.out.size() == y->out.size();
            for (size_t k = 0; same && k < x.out.size(); k++)
                same = x.out[k].edge == y->out[k].edge &&
                       x.out[k].dst == y->out[k].dst &&
                       x.out[k].prog == y->out[k].prog &&
                       x.out[k].id == y->out[k].id &&
                       x.out[k].text == y->out[k].text;
            if (!same)
                sim::violation("population_altered",
                               "generation %llu: population altered V%zu: %s",
                               (unsigned long long)t.gen, i,
                               firstDiff(x.text(), y->text()).c_str());
            i++;
        }
        // new vertices are teams
        for (auto& y : t.post.vs)
            if (!t.pre.find(y.v) && y.action >= 0)
                sim::violation("population_action",
                               "population created an action");
        if (got > want)
            sim::probe("more_roots_than_configured");
    };
    t.onSelected = [&] {
        std::map<const TPG::TPGVertex*, std::shared_ptr<Learn::EvaluationResult>>
            sc;
        for (auto& r : t.results)
            sc[r.first] = r.second;
        size_t roots = t.post.nbRoots(), teams = t.post.nbRootTeams();
        std::vector<const VertexSnap*> removed, kept;
        size_t i = 0;
        for (auto& x : t.post.vs) {
            auto y = t.after.find(x.v);
            if (!y) {
                if (!x.root)
                    sim::violation("removed_internal",
                                   "selection removed V%zu, which is not a "
                                   "root",
                                   i);
                if (x.action >= 0)
                    sim::violation("removed_action",
                                   "selection removed root action %lld",
                                   (long long)x.action);
                removed.push_back(&x);
            }
            else {
                if (x.root && x.action < 0)
                    kept.push_back(&x);
                bool same = x.out.size() == y->out.size();
                for (size_t k = 0; same && k < x.out.size(); k++)
                    same = x.out[k].edge == y->out[k].edge &&
                           x.out[k].dst == y->out[k].dst &&
                           x.out[k].prog == y->out[k].prog &&
                           x.out[k].text == y->out[k].text;
                if (!same)
                    sim::violation("selection_altered",
                                   "selection altered V%zu, which it kept", i);
            }
            i++;
        }
        for (auto& y : t.after.vs)
            if (!t.post.find(y.v))
                sim::violation("selection_created",
                               "selection created a vertex");
        auto score = [&](const VertexSnap* x) {
            auto it = sc.find(x->v);
            if (it == sc.end())
                sim::violation("not_scored", "a root team was not scored");
            return it->second->getResult();
        };
        if (!cls) {
            size_t want = (size_t)std::floor(
                c.p.ratioDeletedRoots * (double)c.p.mutation.tpg.nbRoots);
            want = std::min(want, teams);
            if (removed.size() != want)
                sim::violation("removed_count",
                               "generation %llu: %zu teams removed instead of "
                               "%zu",
                               (unsigned long long)t.gen, removed.size(), want);
            for (auto r : removed)
                for (auto k : kept)
                    if (score(r) > score(k))
                        sim::violation("removed_better",
                                       "generation %llu: a removed team scores "
                                       "%.17g, a kept one %.17g",
                                       (unsigned long long)t.gen, score(r),
                                       score(k));
            if (want == teams)
                sim::probe("all_teams_removed");
            return;
        }
        size_t nact = roots - teams;
        size_t del = (size_t)std::floor(c.p.ratioDeletedRoots * (double)roots);
        if (removed.size() > del || removed.size() + nact < del)
            sim::violation("removed_count",
                           "generation %llu: %zu teams removed, %zu expected "
                           "(%zu root actions)",
                           (unsigned long long)t.gen, removed.size(), del,
                           nact);
        size_t keep = roots - del;
        size_t perClass = keep / (size_t)c.env.nbActions / 2;
        auto classScore = [&](const TPG::TPGVertex* v, size_t k) {
            return dynamic_cast<const Learn::ClassificationEvaluationResult&>(
                       *sc.at(v))
                .getScorePerClass()
                .at(k);
        };
        std::set<const TPG::TPGVertex*> justified;
        for (size_t k = 0; k < (size_t)c.env.nbActions && perClass; k++) {
            sim::probe("class_selection");
            for (auto& x : t.post.vs) {
                if (!x.root)
                    continue;
                size_t atLeast = 0, better = 0;
                for (auto& z : t.post.vs)
                    if (z.root) {
                        atLeast += classScore(z.v, k) >= classScore(x.v, k);
                        better += classScore(z.v, k) > classScore(x.v, k);
                    }
                if (atLeast <= perClass && x.action < 0 && !t.after.find(x.v))
                    sim::violation("class_best_removed",
                                   "generation %llu: a team among the %zu best "
                                   "for class %zu was removed",
                                   (unsigned long long)t.gen, perClass, k);
                if (better < perClass)
                    justified.insert(x.v);
            }
        }
        size_t below = 0;
        double worstRemoved = 0;
        bool any = false;
        for (auto r : removed) {
            if (!any || score(r) > worstRemoved)
                worstRemoved = score(r);
            any = true;
        }
        for (auto k : kept)
            if (any && score(k) < worstRemoved) {
                below++;
                if (!justified.count(k->v))
                    sim::violation("removed_better",
                                   "generation %llu: a kept team scores %.17g, "
                                   "is not among the %zu best of a class, and "
                                   "a removed team scores %.17g",
                                   (unsigned long long)t.gen, score(k),
                                   perClass, worstRemoved);
            }
        if (below > perClass * (size_t)c.env.nbActions)
            sim::violation("class_kept_too_many",
                           "generation %llu: %zu teams kept below removed ones",
                           (unsigned long long)t.gen, below);
    };
    w.agent->init(c.seed);
    for (int i = 0; i < c.nbGen; i++)
        t.generation((uint64_t)i);
}
