// P06: scores are exact means, the best root is tracked, the best policy kept.
#include "x_train.h"
using namespace H;

namespace {
    struct Score
    {
        double value = 0;
        size_t n = 0;
        std::vector<double> cls;
        std::vector<size_t> ncls;
    };
    struct Open
    { // evaluation in progress on a thread
        const TPG::TPGVertex* root = nullptr;
        std::vector<double> scores;
        int resets = 0;
        std::vector<std::vector<std::vector<uint64_t>>> tables;
    };
    struct S6
    {
        Cfg c;
        std::map<const TPG::TPGVertex*, Score> known;
        std::map<int, Open> open;
        std::map<const TPG::TPGVertex*, Score> fresh; // of this generation
        std::map<const TPG::TPGVertex*, bool> skipped;
        const TPG::TPGVertex* best = nullptr;
        double bestScore = 0;
    };
    bool near(double a, double b)
    {
        if (a != a || b != b)
            return (a != a) == (b != b);
        return std::fabs(a - b) <= 1e-9 * std::max({1.0, std::fabs(a),
                                                    std::fabs(b)});
    }
} // namespace

static bool isClass(const Cfg& c)
{
    return c.agent == AK_CLASS || c.agent == AK_CLASS_SEQ;
}

static Score scoreOf(const S6& s, const Open& o)
{
    Score r;
    size_t it = s.c.p.nbIterationsPerPolicyEvaluation;
    if (!isClass(s.c)) {
        for (double x : o.scores)
            r.value += x;
        r.value /= (double)it;
        r.n = it;
        return r;
    }
    size_t k = (size_t)s.c.env.nbActions;
    r.cls.assign(k, 0.0);
    r.ncls.assign(k, 0);
    for (auto& t : o.tables)
        for (size_t i = 0; i < k; i++) {
            uint64_t tp = t[i][i], actual = 0, predicted = 0;
            for (size_t j = 0; j < k; j++) {
                actual += t[i][j];
                predicted += t[j][i];
            }
            // harmonic mean of precision and recall
            r.cls[i] += tp ? 2.0 * (double)tp / (double)(actual + predicted)
                           : 0.0;
            r.ncls[i] += actual;
        }
    for (size_t i = 0; i < k; i++) {
        r.cls[i] /= (double)it;
        r.value += r.cls[i] / (double)k;
        r.n += r.ncls[i];
    }
    return r;
}
static Score combine(const Score& a, const Score& b)
{
    Score r;
    r.n = a.n + b.n;
    if (a.cls.empty()) {
        r.value = (a.value * (double)a.n + b.value * (double)b.n) / (double)r.n;
        return r;
    }
    for (size_t i = 0; i < a.cls.size(); i++) {
        size_t n = a.ncls[i] + b.ncls[i];
        // a class that was never met keeps a null score
        r.cls.push_back(n ? (a.cls[i] * (double)a.ncls[i] +
                             b.cls[i] * (double)b.ncls[i]) /
                                (double)n
                          : 0.0);
        r.ncls.push_back(n);
        r.value += r.cls.back() / (double)a.cls.size();
    }
    return r;
}
static void reachable(const TPG::TPGVertex* v,
                      std::set<const TPG::TPGVertex*>& s)
{
    if (!s.insert(v).second)
        return;
    for (auto e : v->getOutgoingEdges())
        reachable(e->getDestination(), s);
}

PROP(P06)
{
    static S6 s;
    static JobObs jo;
    static Sink sink;
    s.c = drawCfg(1 << AK_LEARN | 1 << AK_PAR | 1 << AK_CLASS |
                      1 << AK_CLASS_SEQ,
                  5);
    Cfg& c = s.c;
    static const size_t me[] = {1, 2, 3, 4, 6, 10, 1000};
    c.p.maxNbEvaluationPerPolicy = pickOf("maxEval", me);
    static const double rd[] = {0.1, 0.25, 0.34, 0.5, 0.7, 0.9, 1.0};
    c.p.ratioDeletedRoots = pickOf("ratioDeletedRoots6", rd);
    if (flip("threads", 50) && c.agent != AK_LEARN && c.agent != AK_CLASS_SEQ)
        setParallelKnobs(c);
    if (isClass(c))
        c.p.maxNbActionsPerEval = (uint64_t)knob("classActions", 1, 12);
    drawHeap();
    drawSchedule();
    sim::raceDetection(false);
    sim::note("agentName", agentName(c.agent));
    sink.keep = false;
    World w(c);
    sink.on = [&](const Call& k, EnvCore* core) {
        auto it = s.open.find(k.tid);
        if (it == s.open.end())
            return;
        Open& o = it->second;
        if (k.kind == C_RESET) {
            o.resets++;
            if (isClass(c))
                o.tables.push_back(std::vector<std::vector<uint64_t>>(
                    (size_t)c.env.nbActions,
                    std::vector<uint64_t>((size_t)c.env.nbActions, 0)));
        }
        else if (k.kind == C_ACT && isClass(c)) {
            uint64_t st = core->nbAct == 0 ? core->state : core->state >> 3;
            uint64_t cl = st % (uint64_t)c.env.nbActions;
            if (o.tables.empty())
                sim::violation("action_before_reset",
                               "an evaluation acts before resetting");
            o.tables.back()[cl][k.a]++;
        }
        else if (k.kind == C_SCORE)
            o.scores.push_back(k.x);
    };
    g_sink = &sink;
    g_classHook = [&](ClassEnv& e) {
        sim::OracleScope os;
        auto it = s.open.find(sim::currentTid());
        if (it == s.open.end() || it->second.tables.empty())
            return;
        auto& tab = it->second.tables.back();
        if (e.getClassificationTable() != tab)
            sim::violation("class_table",
                           "the classification table is not the count of the "
                           "actions since the last reset");
        double sum = 0;
        for (size_t i = 0; i < tab.size(); i++) {
            uint64_t tp = tab[i][i], row = 0, col = 0;
            for (size_t j = 0; j < tab.size(); j++) {
                row += tab[i][j];
                col += tab[j][i];
            }
            // F1 = 2 TP / (2 TP + FP + FN)
            if (tp)
                sum += 2.0 * (double)tp / (double)(row + col);
        }
        double want = sum / (double)tab.size();
        const Learn::LearningEnvironment& le = e;
        if (!near(le.getScore(), want))
            sim::violation("class_environment_score",
                           "a classification environment scores %.17g instead "
                           "of the mean F1 score %.17g",
                           le.getScore(), want);
        sim::probe("class_scores");
    };
    Train t(w);
    jo.begin = [&](const Learn::Job& j, uint64_t, int mode,
                   Learn::LearningEnvironment&) {
        if (mode == (int)Learn::LearningMode::TRAINING)
            s.open[sim::currentTid()] = Open{j.getRoot()};
    };
    jo.end = [&](const Learn::Job& j, uint64_t, int mode,
                 const std::shared_ptr<Learn::EvaluationResult>& r) {
        if (mode != (int)Learn::LearningMode::TRAINING)
            return;
        Open o = s.open[sim::currentTid()];
        s.open.erase(sim::currentTid());
        auto root = j.getRoot();
        auto kn = s.known.find(root);
        size_t max = c.p.maxNbEvaluationPerPolicy;
        size_t n = kn == s.known.end() ? 0 : kn->second.n;
        if (kn != s.known.end() && n >= max) {
            if (o.resets || o.scores.size())
                sim::violation("evaluated_too_much",
                               "V%d was evaluated again after %zu evaluations "
                               "(maximum %zu)",
                               vertexIndex(w.graph(), root), n, max);
            s.skipped[root] = true;
            sim::probe("evaluation_skipped");
            return;
        }
        if ((size_t)o.resets != c.p.nbIterationsPerPolicyEvaluation)
            sim::violation("iterations",
                           "V%d was evaluated %d times instead of %zu",
                           vertexIndex(w.graph(), root), o.resets,
                           c.p.nbIterationsPerPolicyEvaluation);
        Score f = scoreOf(s, o);
        if (kn != s.known.end()) {
            sim::probe("scores_combined");
            f = combine(f, kn->second);
        }
        s.fresh[root] = f;
    };
    g_jobs = &jo;
    t.onStart = [&] {
        // a graph without root team is replaced by a new one
        if (!t.pre.nbRootTeams()) {
            s.known.clear();
            s.best = nullptr;
            if (t.gen)
                sim::probe("graph_replaced");
        }
    };
    t.onPopulated = [&] {
        s.fresh.clear();
        s.skipped.clear();
    };
    double top = 0;
    t.onEvaluated = [&] {
        bool first = true;
        for (auto& r : t.results) {
            auto v = r.first;
            Score e;
            if (s.skipped.count(v))
                e = s.known[v];
            else if (s.fresh.count(v))
                e = s.fresh[v];
            else
                sim::violation("score_unknown",
                               "V%d is scored without an evaluation",
                               vertexIndex(w.graph(), v));
            if (!near(r.second->getResult(), e.value))
                sim::violation("score_value",
                               "generation %llu: V%d scores %.17g instead of "
                               "%.17g (%zu evaluations)",
                               (unsigned long long)t.gen,
                               vertexIndex(w.graph(), v),
                               r.second->getResult(), e.value, e.n);
            if (r.second->getNbEvaluation() != e.n)
                sim::violation("score_weight",
                               "V%d was evaluated %zu times, the result says "
                               "%zu",
                               vertexIndex(w.graph(), v), e.n,
                               r.second->getNbEvaluation());
            if (isClass(c)) {
                auto& cr =
                    dynamic_cast<const Learn::ClassificationEvaluationResult&>(
                        *r.second);
                for (size_t i = 0; i < e.cls.size(); i++)
                    if (!near(cr.getScorePerClass().at(i), e.cls[i]) ||
                        cr.getNbEvaluationPerClass().at(i) != e.ncls[i])
                        sim::violation(
                            "class_score",
                            "generation %llu: V%d scores %.17g (%zu times) "
                            "for class %zu instead of %.17g (%zu)",
                            (unsigned long long)t.gen,
                            vertexIndex(w.graph(), v),
                            cr.getScorePerClass().at(i),
                            cr.getNbEvaluationPerClass().at(i), i, e.cls[i],
                            e.ncls[i]);
            }
            s.known[v] = e;
            if (first || r.second->getResult() > top)
                top = r.second->getResult();
            first = false;
        }
    };
    t.onSelected = [&] {
        auto& la = *w.agent;
        if (!near(la.getBestScoreLastGen(), top))
            sim::violation("best_score_generation",
                           "best score of the generation is %.17g instead of "
                           "%.17g",
                           la.getBestScoreLastGen(), top);
        for (auto it = s.known.begin(); it != s.known.end();)
            if (!t.after.find(it->first))
                it = s.known.erase(it);
            else
                ++it;
        // survivors of this generation
        bool any = false;
        double max = 0;
        std::map<const TPG::TPGVertex*, double> surv;
        for (auto& r : t.results)
            if (t.after.find(r.first)) {
                double x = r.second->getResult();
                surv[r.first] = x;
                if (!any || x > max)
                    max = x;
                any = true;
            }
        auto& b = la.getBestRoot();
        bool gone = s.best && !t.after.find(s.best);
        if (gone) {
            sim::probe("best_root_removed");
            s.best = nullptr;
        }
        if (!any) {
            sim::probe("no_survivor");
            if (b.first && !t.after.find(b.first))
                sim::violation("best_root_dangling",
                               "the best root does not exist any more");
            s.best = b.first;
            s.bestScore = b.first ? b.second->getResult() : 0;
            return;
        }
        if (!b.first || !b.second)
            sim::violation("best_root_missing", "no best root is recorded");
        if (!t.after.find(b.first))
            sim::violation("best_root_dangling",
                           "the best root does not exist any more");
        if (s.best && surv.count(s.best))
            s.bestScore = surv[s.best]; // latest
        double got = b.second->getResult();
        if (!s.best || max > s.bestScore) {
            if (!surv.count(b.first))
                sim::violation("best_root_not_replaced",
                               "a root scores %.17g, the best root has %.17g",
                               max, s.bestScore);
            if (surv[b.first] != max)
                sim::violation("best_root_score",
                               "the best root scores %.17g, another survivor "
                               "%.17g",
                               surv[b.first], max);
        }
        else {
            if (b.first != s.best)
                sim::violation("best_root_replaced",
                               "the best root (%.17g) was replaced although no "
                               "root scores more (maximum %.17g)",
                               s.bestScore, max);
            sim::probe("best_root_kept");
            max = s.bestScore;
        }
        if (got != (surv.count(b.first) ? surv[b.first] : max))
            sim::violation("best_root_stale",
                           "the recorded score of the best root is %.17g "
                           "instead of %.17g",
                           got, surv.count(b.first) ? surv[b.first] : max);
        s.best = b.first;
        s.bestScore = got;
        if (!s.best->getIncomingEdges().empty())
            sim::probe("best_root_internal");
    };
    std::string bestBefore;
    t.onValidating = [&] { bestBefore = dumpBest(*w.agent); };
    t.onValidated = [&](Results&) {
        if (bestBefore != dumpBest(*w.agent))
            sim::violation("best_root_validation",
                           "validation changed the best root");
    };
    auto keep = [&] {
        sim::OracleScope o;
        std::set<const TPG::TPGVertex*> want;
        auto best = w.agent->getBestRoot().first;
        bool exists = best && w.graph().hasVertex(*best);
        if (exists)
            reachable(best, want);
        auto before = dumpGraph(w.graph());
        {
            w.agent->keepBestPolicy();
        }
        if (!exists) {
            if (before != dumpGraph(w.graph()))
                sim::violation("keep_without_best",
                               "keepBestPolicy() changed the graph although "
                               "there is no best root");
            return;
        }
        checkLinks(w.graph(), "after keepBestPolicy()");
        std::set<const TPG::TPGVertex*> got;
        for (auto v : w.graph().getVertices())
            got.insert(v);
        for (auto v : want)
            if (!got.count(v))
                sim::violation("keep_lost",
                               "keepBestPolicy() removed a vertex of the best "
                               "policy");
        // actions without incoming edge may stay or not
        for (auto v : got)
            if (!want.count(v))
                sim::violation("keep_extra",
                               "keepBestPolicy() kept a vertex that the best "
                               "policy does not reach");
        auto& b = w.agent->getBestRoot();
        if (b.first != best)
            sim::violation("keep_best",
                           "keepBestPolicy() changed the best root");
        sim::probe("best_policy_kept");
        for (auto it = s.known.begin(); it != s.known.end();)
            if (!want.count(it->first))
                it = s.known.erase(it);
            else
                ++it;
    };
    int keepAt = (int)knob("keepAt", -2, 6);
    if (keepAt == -1)
        keep();
    w.agent->init(c.seed);
    if (keepAt == 0)
        keep();
    for (int i = 0; i < c.nbGen; i++) {
        t.generation((uint64_t)i);
        if (keepAt == i + 1)
            keep();
    }
    keep();
    if (flip("trainAfterKeep", 40)) {
        t.generation((uint64_t)c.nbGen);
        t.generation((uint64_t)c.nbGen + 1);
    }
    g_classHook = nullptr;
    g_jobs = nullptr;
    g_sink = nullptr;
}
