// P10: environments are driven by the protocol and never shared.
#include "x_train.h"
using namespace H;

namespace {
    struct Inst
    {
        bool inEval = false; // between a reset and its end
        int acts = 0, iter = 0;
        bool scored = false;
        int user = -1;
        bool clone = false, dead = false;
    };
    struct JobState
    {
        int inst = -1, iters = 0;
        int mode = 0;
        uint64_t gen = 0;
    };
    struct S10
    {
        Cfg c;
        std::map<int, Inst> inst;
        std::map<int, JobState> job; // by thread
        std::map<std::pair<uint64_t, uint64_t>, uint64_t> seeds;
        int mainTid = 0;
        int evals = 0;
        std::set<int> tids;
    };
} // namespace

PROP(P10)
{
    static S10 s;
    static JobObs jo;
    static Sink sink;
    s.c = drawCfg(1 << AK_LEARN | 1 << AK_PAR | 1 << AK_CLASS |
                      1 << AK_CLASS_SEQ | 1 << AK_ADV,
                  4);
    Cfg& c = s.c;
    if (flip("threads", 70))
        setParallelKnobs(c);
    c.env.copyable = !flip("notCopyable", 20);
    bool adv = c.agent == AK_ADV;
    bool cls = c.agent == AK_CLASS || c.agent == AK_CLASS_SEQ;
    bool parallel =
        c.agent != AK_LEARN && c.agent != AK_CLASS_SEQ && c.env.copyable;
    drawHeap();
    drawSchedule();
    sim::raceDetection(false);
    sim::note("agentName", agentName(c.agent));
    size_t iterations = adv ? c.p.nbIterationsPerJob
                            : c.p.nbIterationsPerPolicyEvaluation;
    int maxAct = (int)c.p.maxNbActionsPerEval * (adv ? c.env.seats : 1);
    auto finish = [&](Inst& i, EnvCore* core, const char* by) {
        if (!i.inEval)
            return;
        if (!core->terminal() && i.acts < maxAct)
            sim::violation("stopped_early",
                           "%s after %d actions (maximum %d) although the "
                           "environment is not terminal",
                           by, i.acts, maxAct);
        i.inEval = false;
    };
    sink.keep = false;
    sink.on = [&](const Call& k, EnvCore* core) {
        Inst& i = s.inst[k.inst];
        if (k.kind == C_CLONE) {
            s.inst[(int)k.a].clone = true;
            return;
        }
        if (k.kind == C_DESTROY) {
            if (i.dead)
                sim::violation("destroyed_twice",
                               "an environment was destroyed twice");
            i.dead = true;
            return;
        }
        if (k.kind == C_SOURCES)
            return;
        if (i.dead)
            sim::violation("used_dead", "a destroyed environment is used");
        auto jt = s.job.find(k.tid);
        if (jt == s.job.end())
            sim::violation("outside_evaluation",
                           "an environment is driven outside of an evaluation");
        JobState& j = jt->second;
        if (!i.clone && k.tid != s.mainTid)
            sim::violation("original_shared",
                           "a worker uses the original environment");
        if (i.user >= 0 && i.user != k.tid)
            sim::violation("shared", "an environment is used by two threads");
        i.user = k.tid;
        if (j.inst >= 0 && j.inst != k.inst)
            sim::violation("two_environments",
                           "an evaluation uses two environments");
        j.inst = k.inst;
        s.tids.insert(k.tid);
        switch (k.kind) {
        case C_RESET: {
            finish(i, core, "reset");
            if (i.acts && !cls && !i.scored && j.iters)
                sim::violation("score_not_read",
                               "an iteration ended without reading the score");
            if (k.b != (uint64_t)j.mode)
                sim::violation("reset_mode", "reset in mode %llu instead of %d",
                               (unsigned long long)k.b, j.mode);
            if (k.c != (uint64_t)j.iters)
                sim::violation("reset_iteration",
                               "iteration %d is reset with iteration number "
                               "%llu",
                               j.iters, (unsigned long long)k.c);
            if (k.d != j.gen)
                sim::violation("reset_generation",
                               "generation %llu is reset with generation "
                               "number %llu",
                               (unsigned long long)j.gen,
                               (unsigned long long)k.d);
            auto key = std::make_pair(j.gen, (uint64_t)j.iters);
            auto it = s.seeds.find(key);
            if (it == s.seeds.end())
                s.seeds[key] = k.a;
            else if (it->second != k.a)
                sim::violation("reset_seed",
                               "iteration %d of generation %llu is reset with "
                               "two different seeds",
                               j.iters, (unsigned long long)j.gen);
            if ((size_t)j.iters >= iterations)
                sim::violation("too_many_iterations",
                               "%d iterations instead of %zu", j.iters + 1,
                               iterations);
            j.iters++;
            i.inEval = true;
            i.acts = 0;
            i.scored = false;
            break;
        }
        case C_ACT:
            if (!i.inEval)
                sim::violation("action_before_reset",
                               "an action is done on an environment that was "
                               "not reset");
            if (core->terminal())
                sim::violation("action_after_end",
                               "an action is done on a terminal environment");
            if (i.acts >= maxAct)
                sim::violation("too_many_actions", "%d actions (maximum %d)",
                               i.acts + 1, maxAct);
            if (k.a >= (uint64_t)c.env.nbActions)
                sim::violation("invalid_action", "action %llu of %d",
                               (unsigned long long)k.a, c.env.nbActions);
            i.acts++;
            break;
        case C_SCORE:
            if (i.scored)
                sim::violation("score_twice",
                               "the score is read twice in an iteration");
            finish(i, core, "score read");
            i.scored = true;
            break;
        }
    };
    jo.begin = [&](const Learn::Job&, uint64_t g, int mode,
                   Learn::LearningEnvironment& le) {
        JobState j;
        j.mode = mode;
        j.gen = g;
        (void)le;
        s.job[sim::currentTid()] = j;
    };
    jo.end = [&](const Learn::Job&, uint64_t, int,
                 const std::shared_ptr<Learn::EvaluationResult>&) {
        auto j = s.job[sim::currentTid()];
        s.job.erase(sim::currentTid());
        if (j.inst < 0) {
            sim::probe("evaluation_skipped");
            return;
        }
        Inst& i = s.inst[j.inst];
        if ((size_t)j.iters != iterations)
            sim::violation("iterations", "%d iterations instead of %zu",
                           j.iters, iterations);
        if (cls) {
            if (i.inEval) {
                // (the environment is not accessible here: the number of
                // actions was checked when the next reset came)
                i.inEval = false;
            }
        }
        else if (!i.scored)
            sim::violation("score_not_read",
                           "an evaluation ended without reading the score");
        s.evals++;
    };
    g_sink = &sink;
    g_jobs = &jo;
    s.mainTid = sim::currentTid();
    World w(c);
    Train t(w);
    int baseEnvs = g_liveEnvs;
    auto callDone = [&](const char* when) {
        if (g_liveEnvs != baseEnvs)
            sim::violation("clone_left", "%d environments left %s",
                           g_liveEnvs - baseEnvs, when);
        for (auto& p : s.inst)
            p.second.user = -1;
        if (!parallel && s.tids.size() > 1)
            sim::violation("several_threads",
                           "%zu threads evaluate although only one is allowed",
                           s.tids.size());
        if (s.tids.size() > c.p.nbThreads)
            sim::violation("several_threads",
                           "%zu threads evaluate, %zu configured",
                           s.tids.size(), c.p.nbThreads);
        if (s.tids.size() > 1)
            sim::probe("several_workers");
        s.tids.clear();
    };
    int before = 0;
    t.onPopulated = [&] { before = s.evals; };
    t.onEvaluated = [&] { callDone("after the evaluation"); };
    t.onValidated = [&](Results&) { callDone("after the validation"); };
    bool mustThrow = adv && !c.env.copyable && c.p.nbThreads > 1;
    bool thrown = false;
    w.agent->init(c.seed);
    try {
        for (int i = 0; i < c.nbGen; i++)
            t.generation((uint64_t)i);
    }
    catch (std::runtime_error& e) {
        thrown = true;
        if (!mustThrow)
            throw;
    }
    if (mustThrow) {
        sim::probe("non_copyable_adversarial");
        if (!thrown || s.evals || !s.job.empty())
            sim::violation("non_copyable",
                           "several threads and a non copyable environment: "
                           "%s, %d evaluations",
                           thrown ? "exception" : "no exception", s.evals);
    }
    g_jobs = nullptr;
    g_sink = nullptr;
    (void)before;
}
