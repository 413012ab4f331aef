// P13: adversarial tournaments are complete and scored per root.
#include "x_train.h"
using namespace H;

namespace {
    struct Game
    { // one iteration of a job
        std::vector<double> payoff; // per seat, recomputed
    };
    struct JobRec
    {
        std::vector<const TPG::TPGVertex*> line;
        int seat;
        std::vector<double> sum; // per seat, over the iterations
        int iters = 0;
        bool done = false;
    };
    struct S13
    {
        Cfg c;
        std::map<int, JobRec> open;
        std::vector<JobRec> jobs;
        std::vector<const TPG::TPGVertex*> roots;
        // champions allowed for this evaluation; empty: any root
        std::vector<std::pair<const TPG::TPGVertex*, double>> ranking;
        bool haveRanking = false;
        size_t nbRanked = 0;
    };
} // namespace

static bool near(double a, double b)
{
    return std::fabs(a - b) <=
           1e-9 * std::max({1.0, std::fabs(a), std::fabs(b)});
}

PROP(P13)
{
    static S13 s;
    static JobObs jo;
    static Sink sink;
    s.c = drawCfg(1 << AK_ADV, 5);
    Cfg& c = s.c;
    static const double rd[] = {0.0, 0.1, 0.25, 0.34, 0.5, 0.7, 0.9};
    c.p.ratioDeletedRoots = pickOf("ratioDeletedRoots13", rd);
    c.p.nbIterationsPerPolicyEvaluation = (size_t)knob("evalIterations", 1, 9);
    c.p.nbIterationsPerJob = (size_t)knob("jobIterations", 1, 3);
    c.p.mutation.tpg.nbRoots = (size_t)knob("nbRoots13", 3, 8);
    bool many = flip("manyTeams", 15);
    if (many) {
        // enough draws to meet every champion
        c.p.mutation.tpg.nbRoots = (size_t)knob("nbRootsMany", 3, 5);
        static const double rm[] = {0.25, 0.4, 0.5};
        c.p.ratioDeletedRoots = pickOf("ratioMany", rm);
        c.p.maxNbActionsPerEval = (uint64_t)knob("actionsMany", 1, 2);
        c.p.nbIterationsPerJob = 1;
        c.p.nbIterationsPerPolicyEvaluation = 130;
        c.nbGen = 2;
        c.p.mutation.prog.maxProgramSize = 8;
        c.p.nbThreads = 1;
    }
    c.env.scoreLevels = flip("fineScores", 60) ? 0 : c.env.scoreLevels;
    if (flip("threads", 60) && !many)
        setParallelKnobs(c);
    drawHeap();
    drawSchedule();
    sim::raceDetection(false);
    sim::note("agentName", agentName(c.agent));
    int seats = c.env.seats;
    World w(c);
    auto& g = w.graph();
    Ref ref(*w.is, c.p.nbRegisters, c.p.nbProgramConstant);
    sink.keep = false;
    sink.on = [&](const Call& k, EnvCore* core) {
        auto it = s.open.find(k.tid);
        if (it == s.open.end())
            return;
        JobRec& j = it->second;
        if (k.kind == C_ACT) {
            // the seat whose turn it is decides
            auto root = j.line[(size_t)core->nbAct % j.line.size()];
            auto p = ref.path(root, *core);
            auto a = dynamic_cast<const TPG::TPGAction*>(p.back());
            if (!a || a->getActionID() != k.a)
                sim::violation("turn_order",
                               "turn %d: seat %d is played by V%d, which "
                               "chooses another action than %llu",
                               core->nbAct, (int)(core->nbAct % seats),
                               vertexIndex(g, root), (unsigned long long)k.a);
        }
        if (k.kind == C_SCORE) {
            for (int i = 0; i < seats; i++) {
                double x = core->seatAcc[(size_t)i];
                if (core->c.scoreLevels)
                    x = std::fmod(x, (double)core->c.scoreLevels) * 0.37;
                j.sum[(size_t)i] += x;
            }
            j.iters++;
        }
    };
    jo.begin = [&](const Learn::Job& job, uint64_t, int,
                   Learn::LearningEnvironment&) {
        auto a = dynamic_cast<const Learn::AdversarialJob*>(&job);
        if (!a)
            sim::violation("job_kind", "a job is not an adversarial one");
        JobRec j;
        j.line = a->getRoots();
        j.seat = a->getPosOfStudiedRoot();
        j.sum.assign((size_t)seats, 0.0);
        for (auto r : j.line)
            if (!g.hasVertex(*r))
                sim::violation("dangling_root",
                               "a line-up contains a vertex that does not "
                               "exist any more");
        if ((int)j.line.size() != seats || j.seat < 0 || j.seat >= seats)
            sim::violation("line_up", "a line-up has %zu seats, studied seat "
                                      "%d",
                           j.line.size(), j.seat);
        s.open[sim::currentTid()] = j;
    };
    jo.end = [&](const Learn::Job&, uint64_t, int,
                 const std::shared_ptr<Learn::EvaluationResult>& r) {
        JobRec j = s.open[sim::currentTid()];
        s.open.erase(sim::currentTid());
        if ((size_t)j.iters != c.p.nbIterationsPerJob)
            sim::violation("job_iterations", "%d games instead of %zu", j.iters,
                           c.p.nbIterationsPerJob);
        if (r->getNbEvaluation() != (size_t)j.iters)
            sim::violation("job_weight", "%zu evaluations counted for %d games",
                           r->getNbEvaluation(), j.iters);
        s.jobs.push_back(j);
    };
    size_t teams = (size_t)std::ceil(
        (double)c.p.nbIterationsPerPolicyEvaluation /
        (double)((size_t)seats * c.p.nbIterationsPerJob));
    auto judge = [&](const std::vector<std::pair<
                         const TPG::TPGVertex*,
                         std::shared_ptr<Learn::EvaluationResult>>>& res,
                     const std::vector<const TPG::TPGVertex*>& roots,
                     const char* when) {
        // opponents met, per (root, seat)
        std::map<std::pair<const TPG::TPGVertex*, int>,
                 std::vector<std::vector<const TPG::TPGVertex*>>>
            met;
        std::map<const TPG::TPGVertex*, std::pair<double, size_t>> own;
        std::set<const TPG::TPGVertex*> champions;
        for (auto& j : s.jobs) {
            std::vector<const TPG::TPGVertex*> opp = j.line;
            auto root = j.line[(size_t)j.seat];
            opp.erase(opp.begin() + j.seat);
            met[{root, j.seat}].push_back(opp);
            for (auto v : opp)
                champions.insert(v);
            auto& o = own[root];
            o.first += j.sum[(size_t)j.seat];
            o.second += (size_t)j.iters;
        }
        s.jobs.clear();
        std::vector<std::vector<const TPG::TPGVertex*>> all;
        for (size_t i = 0; i < roots.size(); i++)
            for (int k = 0; k < seats; k++) {
                auto it = met.find({roots[i], k});
                if (it == met.end())
                    sim::violation("seat_missing",
                                   "V%d never plays at seat %d %s",
                                   vertexIndex(g, roots[i]), k, when);
                auto v = it->second;
                std::sort(v.begin(), v.end());
                if (v.size() != teams)
                    sim::violation("opponents",
                                   "V%d plays %zu games at seat %d instead of "
                                   "%zu %s",
                                   vertexIndex(g, roots[i]), v.size(), k, teams,
                                   when);
                if (all.empty())
                    all = v;
                else if (all != v)
                    sim::violation("opponents",
                                   "V%d does not meet at seat %d the same "
                                   "teams of champions as the others %s",
                                   vertexIndex(g, roots[i]), k, when);
            }
        if (met.size() != roots.size() * (size_t)seats)
            sim::violation("extra_games", "%zu (root, seat) pairs instead of "
                                          "%zu %s",
                           met.size(), roots.size() * (size_t)seats, when);
        if (res.size() != roots.size())
            sim::violation("results", "%zu results for %zu roots %s",
                           res.size(), roots.size(), when);
        for (auto& r : res) {
            auto it = own.find(r.first);
            if (it == own.end())
                sim::violation("results", "a result for a vertex that is not "
                                          "a root %s",
                               when);
            double want = it->second.first / (double)it->second.second;
            if (!near(want, r.second->getResult()))
                sim::violation("own_seat_score",
                               "V%d scores %.17g instead of %.17g %s",
                               vertexIndex(g, r.first), r.second->getResult(),
                               want, when);
            if (r.second->getNbEvaluation() != it->second.second)
                sim::violation("own_seat_weight",
                               "V%d: %zu evaluations instead of %zu %s",
                               vertexIndex(g, r.first),
                               r.second->getNbEvaluation(), it->second.second,
                               when);
        }
        // champions come from the best scored roots of the last evaluation
        std::vector<std::pair<const TPG::TPGVertex*, double>> alive;
        size_t best = 0;
        if (s.haveRanking) {
            size_t i = 0;
            for (auto& p : s.ranking) {
                if (i < s.nbRanked && g.hasVertex(*p.first))
                    best++;
                i++;
            }
        }
        for (auto v : champions) {
            if (!g.hasVertex(*v))
                sim::violation("dangling_champion",
                               "a champion does not exist any more %s", when);
            if (s.haveRanking && best) {
                size_t above = 0;
                bool known = false;
                double mine = 0;
                for (auto& p : s.ranking)
                    if (p.first == v) {
                        known = true;
                        mine = p.second;
                    }
                for (auto& p : s.ranking)
                    above += p.second > mine;
                if (!known || above >= s.nbRanked)
                    sim::violation("champion_rank",
                                   "V%d is a champion although %zu roots "
                                   "scored more (%zu champions) %s",
                                   vertexIndex(g, v), above, s.nbRanked, when);
                sim::probe("champions_checked");
            }
        }
        if (s.haveRanking && best) {
            size_t draws = teams * (size_t)(seats - 1);
            if (champions.size() > s.nbRanked)
                sim::violation("champion_count", "%zu champions, %zu expected "
                                                 "%s",
                               champions.size(), s.nbRanked, when);
            // every live champion is drawn, but for a chance below 1e-7
            if (draws >= 20 * best && champions.size() < best)
                sim::violation("champion_count",
                               "%zu champions met in %zu draws, %zu expected "
                               "%s",
                               champions.size(), draws, best, when);
            if (draws >= 20 * best)
                sim::probe("all_champions_met");
        }
        s.ranking.clear();
        for (auto& r : res)
            s.ranking.push_back({r.first, r.second->getResult()});
        std::sort(s.ranking.begin(), s.ranking.end(),
                  [](auto& a, auto& b) { return a.second > b.second; });
        s.nbRanked = (size_t)std::floor(
            (1.0 - c.p.ratioDeletedRoots) * (double)roots.size());
        s.haveRanking = s.nbRanked > 0;
    };
    Train t(w);
    std::vector<const TPG::TPGVertex*> roots;
    t.onPopulated = [&] {
        if (t.pre.nbRootTeams() == 0)
            s.haveRanking = false;
        roots = g.getRootVertices();
        s.jobs.clear();
    };
    t.onEvaluated = [&] { judge(t.results, roots, "in training"); };
    t.onValidating = [&] { roots = g.getRootVertices(); };
    t.onValidated = [&](Results& r) {
        std::vector<std::pair<const TPG::TPGVertex*,
                              std::shared_ptr<Learn::EvaluationResult>>>
            v;
        for (auto& p : r)
            v.push_back({p.second, p.first});
        judge(v, roots, "in validation");
    };
    g_sink = &sink;
    g_jobs = &jo;
    w.agent->init(c.seed);
    for (int i = 0; i < c.nbGen; i++)
        t.generation((uint64_t)i);
    g_jobs = nullptr;
    g_sink = nullptr;
}
