#include "h.h"
#include <algorithm>
#include <cstdarg>

namespace H {
    // ------------------------------------------------------------------ knobs
    static std::map<std::string, int64_t>& overrides()
    {
        static std::map<std::string, int64_t> m;
        return m;
    }
    static std::map<std::string, int64_t>& drawn()
    {
        static std::map<std::string, int64_t> m;
        return m;
    }
    void overrideKnob(const std::string& name, int64_t v)
    {
        overrides()[name] = v;
    }
    extern uint64_t g_knobSeed;
    uint64_t g_knobSeed = 0;
    static std::string& prefix()
    {
        static std::string p;
        return p;
    }
    void knobPrefix(const std::string& p)
    {
        prefix() = p;
    }
    static uint64_t mixh(uint64_t x)
    {
        x += 0x9E3779B97F4A7C15ull;
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
        x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
        return x ^ (x >> 31);
    }
    static int64_t knobRaw(const char* n, int64_t lo, int64_t hi, int pct)
    {
        sim::OracleScope s;
        std::string full = prefix() + n;
        const char* name = full.c_str();
        auto d = drawn().find(name);
        if (d != drawn().end())
            return d->second;
        uint64_t h = mixh(mixh(g_knobSeed) ^ fnv(name, strlen(name)));
        int64_t v = pct >= 0 ? (int64_t)((h >> 8) % 100) < pct
                             : lo + (int64_t)((h >> 8) % (uint64_t)(hi - lo + 1));
        auto it = overrides().find(name);
        if (it != overrides().end())
            v = std::min(std::max(it->second, lo), hi);
        drawn()[name] = v;
        sim::note(name, std::to_string(v) + ":" + std::to_string(lo));
        return v;
    }
    int64_t knob(const char* name, int64_t lo, int64_t hi)
    {
        return knobRaw(name, lo, hi, -1);
    }
    bool flip(const char* name, int pct)
    {
        return knobRaw(name, 0, 1, pct) != 0;
    }

    // ----------------------------------------------------------- instructions
    std::unique_ptr<ISet> makeISet(int groups)
    {
        auto s = std::make_unique<ISet>();
        auto put = [&](const char* n, Instructions::Instruction* i,
                       std::vector<OperandKind> ops,
                       double (*ev)(const double*)) {
            s->owned.emplace_back(i);
            s->infos.push_back({n, i, ops, ev});
            s->set.add(*i);
        };
        using Instructions::LambdaInstruction;
        put("add",
            new LambdaInstruction<double, double>(
                [](double a, double b) { return a + b; }, "$0 = $1 + $2;"),
            {OK_DOUBLE, OK_DOUBLE},
            [](const double* v) { return v[0] + v[1]; });
        put("sub",
            new LambdaInstruction<double, double>(
                [](double a, double b) { return a - b; }, "$0 = $1 - $2;"),
            {OK_DOUBLE, OK_DOUBLE},
            [](const double* v) { return v[0] - v[1]; });
        put("mulh",
            new LambdaInstruction<double, double>(
                [](double a, double b) { return a * b * 0.5; },
                "$0 = $1 * $2 * 0.5;"),
            {OK_DOUBLE, OK_DOUBLE},
            [](const double* v) { return v[0] * v[1] * 0.5; });
        put("sel",
            new LambdaInstruction<double, double>(
                [](double a, double b) { return a < b ? -a : b; },
                "$0 = ($1 < $2) ? -($1) : ($2);"),
            {OK_DOUBLE, OK_DOUBLE},
            [](const double* v) { return v[0] < v[1] ? -v[0] : v[1]; });
        put("inc",
            new LambdaInstruction<double>([](double a) { return a + 1.25; },
                                          "$0 = $1 + 1.25;"),
            {OK_DOUBLE}, [](const double* v) { return v[0] + 1.25; });
        if (groups & 64)
            put("frag",
                new LambdaInstruction<double, double>(
                    [](double a, double b) {
                        mayFail(C_INSTR);
                        return a - b * 0.25;
                    },
                    "$0 = $1 - $2 * 0.25;"),
                {OK_DOUBLE, OK_DOUBLE},
                [](const double* v) { return v[0] - v[1] * 0.25; });
        if (groups & 32) {
            put("div",
                new LambdaInstruction<double, double>(
                    [](double a, double b) { return a / b; }, "$0 = $1 / $2;"),
                {OK_DOUBLE, OK_DOUBLE},
                [](const double* v) { return v[0] / v[1]; });
            put("root",
                new LambdaInstruction<double>(
                    [](double a) { return std::sqrt(a); }, "$0 = sqrt($1);"),
                {OK_DOUBLE}, [](const double* v) { return std::sqrt(v[0]); });
        }
        if (groups & 2)
            put("addi",
                new LambdaInstruction<int, double>(
                    [](int a, double b) { return (double)a - b; },
                    "$0 = (double)$1 - $2;"),
                {OK_INT, OK_DOUBLE},
                [](const double* v) { return v[0] - v[1]; });
        if (groups & 4) {
            put("mulc",
                new LambdaInstruction<double, Data::Constant>(
                    [](double a, Data::Constant c) {
                        return a * (double)c * 0.125;
                    },
                    "$0 = $1 * (double)$2 * 0.125;"),
                {OK_DOUBLE, OK_CONST},
                [](const double* v) { return v[0] * v[1] * 0.125; });
            put("cst",
                new LambdaInstruction<Data::Constant>(
                    [](Data::Constant c) { return (double)c; },
                    "$0 = (double)$1;"),
                {OK_CONST}, [](const double* v) { return v[0]; });
        }
        if (groups & 8)
            put("dot2",
                new LambdaInstruction<const double[2]>(
                    [](const double a[2]) { return a[0] * 2.0 - a[1]; },
                    "$0 = $1[0] * 2.0 - $1[1];"),
                {OK_DARR2},
                [](const double* v) { return v[0] * 2.0 - v[1]; });
        if (groups & 16)
            put("win22",
                new LambdaInstruction<const double[2][2]>(
                    [](const double a[2][2]) {
                        return a[0][0] - a[0][1] * 2.0 + a[1][0] * 3.0 -
                               a[1][1] * 0.5;
                    },
                    ""),
                {OK_DARR22}, [](const double* v) {
                    return v[0] - v[1] * 2.0 + v[2] * 3.0 - v[3] * 0.5;
                });
        return s;
    }

    // ------------------------------------------------------------------ sink
    Sink* g_sink = nullptr;
    JobObs* g_jobs = nullptr;
    const TPG::TPGFactory* g_factory = nullptr;
    std::function<void(int)> g_failHook;
    int g_liveEnvs = 0;
    int g_envCount = 0;
    void emit(Call c, EnvCore* core)
    {
        sim::OracleScope s;
        c.tid = sim::currentTid();
        if (!g_sink)
            return;
        if (g_sink->keep)
            g_sink->calls.push_back(c);
        if (g_sink->on)
            g_sink->on(c, core);
    }

    // ----------------------------------------------------------- environments
    EnvCore::EnvCore(const EnvCfg& cfg)
        : c(cfg), inst(0), seatAcc(cfg.seats, 0.0), dd(cfg.nD),
          ii(cfg.nI > 0 ? cfg.nI : 1),
          d2(cfg.w > 0 ? cfg.w : 1, cfg.h > 0 ? cfg.h : 1)
    {
        sim::OracleScope s;
        inst = g_envCount++;
        g_liveEnvs++;
        if (c.wrapper) {
            wrapped.assign(c.nD, 0.0);
            wr = std::make_unique<Data::ArrayWrapper<double>>(c.nD, &wrapped);
        }
        state = mixh(c.salt);
        fill();
    }
    EnvCore::EnvCore(const EnvCore& o)
        : c(o.c), inst(0), state(o.state), evalSeed(o.evalSeed), mode(o.mode),
          iter(o.iter), gen(o.gen), nbAct(o.nbAct), acc(o.acc),
          seatAcc(o.seatAcc), dd(o.dd), ii(o.ii), d2(o.d2), wrapped(o.wrapped)
    {
        {
            sim::OracleScope s;
            inst = g_envCount++;
            g_liveEnvs++;
        }
        if (c.wrapper) {
            wr = std::make_unique<Data::ArrayWrapper<double>>(*o.wr);
            wr->setPointer(&wrapped);
        }
    }
    EnvCore::~EnvCore()
    {
        {
            sim::OracleScope s;
            g_liveEnvs--;
        }
        emit({C_DESTROY, inst, 0}, this);
    }
    static double valueOf(const EnvCfg& c, uint64_t h)
    {
        if (c.special && (int)((h >> 40) % 100) < c.special) {
            switch ((h >> 50) % 5) {
            case 0:
                return std::nan("");
            case 1:
                return INFINITY;
            case 2:
                return -INFINITY;
            case 3:
                return 1e308;
            default:
                return 0.0;
            }
        }
        int64_t q = (int64_t)(h % 4001) - 2000;
        return q == 0 ? 0.0 : (double)q / 128.0;
    }
    void EnvCore::fill()
    {
        uint64_t st = state;
        if (c.dataLevels)
            st = st % (uint64_t)c.dataLevels;
        for (int i = 0; i < c.nD; i++) {
            double v = valueOf(c, mixh(st * 31 + i + 1));
            if (c.wrapper)
                wrapped[i] = v;
            else
                dd.setDataAt(typeid(double), i, v);
        }
        if (c.wrapper)
            wr->invalidateCachedHash();
        for (int i = 0; i < c.nI; i++)
            ii.setDataAt(typeid(int), i,
                         (int)(mixh(st * 37 + i + 1001) % 41) - 20);
        for (int i = 0; i < c.w * c.h; i++)
            d2.setDataAt(typeid(double), i,
                         valueOf(c, mixh(st * 41 + i + 2001)));
    }
    int EnvCore::nbSources() const
    {
        return 1 + (c.nI > 0) + (c.w > 0);
    }
    std::vector<std::reference_wrapper<const Data::DataHandler>> EnvCore::
        sources()
    {
        mayFail(C_SOURCES);
        emit({C_SOURCES, inst, 0}, this);
        std::vector<std::reference_wrapper<const Data::DataHandler>> v;
        if (c.wrapper)
            v.push_back(*wr);
        else
            v.push_back(dd);
        if (c.nI > 0)
            v.push_back(ii);
        if (c.w > 0)
            v.push_back(d2);
        return v;
    }
    void EnvCore::reset(size_t seed, Learn::LearningMode m, uint64_t it,
                        uint64_t g)
    {
        mayFail(C_RESET);
        emit({C_RESET, inst, 0, seed, (uint64_t)m, it, g}, this);
        evalSeed = seed;
        mode = (int)m;
        iter = it;
        gen = g;
        nbAct = 0;
        acc = 0;
        for (auto& x : seatAcc)
            x = 0;
        state = mixh(c.salt ^ mixh(seed) ^ ((uint64_t)m << 60));
        fill();
    }
    void EnvCore::act(uint64_t action)
    {
        mayFail(C_ACT);
        emit({C_ACT, inst, 0, action, (uint64_t)nbAct}, this);
        uint64_t pay = mixh(state ^ (action + 1) * 0x1234567);
        double lv = c.scoreLevels
                        ? (double)(pay % (uint64_t)c.scoreLevels)
                        : (double)(pay % 1000003) / 1000.0;
        acc += lv;
        seatAcc[nbAct % seatAcc.size()] += lv;
        nbAct++;
        state = mixh(state + action * 77 + 5);
        fill();
    }
    bool EnvCore::terminal() const
    {
        mayFail(C_TERM);
        if (nbAct == 0)
            return c.overStart && mixh(state + 99) % 3 == 0;
        return c.termMod && state % (uint64_t)c.termMod == 0;
    }
    double EnvCore::score() const
    {
        mayFail(C_SCORE);
        double s = c.scoreLevels ? std::fmod(acc, (double)c.scoreLevels) * 0.37
                                 : acc;
        Call k{C_SCORE, inst, 0};
        k.x = s;
        emit(k, const_cast<EnvCore*>(this));
        return s;
    }
    std::shared_ptr<Learn::AdversarialEvaluationResult> AdvEnv::getScores()
        const
    {
        mayFail(C_SCORE);
        std::vector<double> v;
        for (double a : k.seatAcc)
            v.push_back(k.c.scoreLevels
                            ? std::fmod(a, (double)k.c.scoreLevels) * 0.37
                            : a);
        Call cc{C_SCORE, k.inst, 0};
        cc.x = v[0];
        emit(cc, const_cast<EnvCore*>(&k));
        if (v.size() == 2)
            return std::make_shared<Learn::AdversarialEvaluationResult>(
                std::initializer_list<double>{v[0], v[1]}, 1);
        return std::make_shared<Learn::AdversarialEvaluationResult>(
            std::initializer_list<double>{v[0], v[1], v[2]}, 1);
    }
    template <class E> static Learn::LearningEnvironment* cloneOf(const E& e)
    {
        if (!e.k.c.copyable)
            sim::violation("clone_of_non_copyable",
                           "clone() called on an environment that is not "
                           "copyable");
        mayFail(C_CLONE);
        auto n = new E(e);
        Call c{C_CLONE, e.k.inst, 0};
        c.a = (uint64_t)n->k.inst;
        emit(c, const_cast<EnvCore*>(&e.k));
        return n;
    }
    Learn::LearningEnvironment* MixEnv::clone() const
    {
        return cloneOf(*this);
    }
    Learn::LearningEnvironment* ClassEnv::clone() const
    {
        return cloneOf(*this);
    }
    Learn::LearningEnvironment* AdvEnv::clone() const
    {
        return cloneOf(*this);
    }
    EnvCore* coreOf(Learn::LearningEnvironment* le)
    {
        if (auto m = dynamic_cast<MixEnv*>(le))
            return &m->k;
        if (auto m = dynamic_cast<ClassEnv*>(le))
            return &m->k;
        if (auto m = dynamic_cast<AdvEnv*>(le))
            return &m->k;
        return nullptr;
    }

    // ----------------------------------------------------------------- agents
    const char* agentName(int k)
    {
        static const char* n[] = {"LearningAgent", "ParallelLearningAgent",
                                  "ClassificationLearningAgent<Parallel>",
                                  "ClassificationLearningAgent<Learning>",
                                  "AdversarialLearningAgent", "?"};
        return n[k];
    }
    template <class Base> struct Obs : public Base
    {
        using Base::Base;
        std::shared_ptr<Learn::EvaluationResult> evaluateJob(
            TPG::TPGExecutionEngine& tee, const Learn::Job& job,
            uint64_t generationNumber, Learn::LearningMode mode,
            Learn::LearningEnvironment& le) const override
        {
            if (g_jobs && g_jobs->begin) {
                sim::OracleScope s;
                g_jobs->begin(job, generationNumber, (int)mode, le);
            }
            auto r =
                Base::evaluateJob(tee, job, generationNumber, mode, le);
            if (g_jobs && g_jobs->end) {
                sim::OracleScope s;
                g_jobs->end(job, generationNumber, (int)mode, r);
            }
            return r;
        }
    };

    Cfg drawCfg(int agentMask, int maxGen)
    {
        Cfg c;
        std::vector<int> kinds;
        for (int i = 0; i < 5; i++)
            if (agentMask & (1 << i))
                kinds.push_back(i);
        c.agent = kinds[knob("agent", 0, (int64_t)kinds.size() - 1)];
        c.nbGen = (int)knob("nbGen", 1, maxGen);
        c.seed = (uint64_t)knob("trainSeed", 0, 1000000);
        EnvCfg& e = c.env;
        e.nbActions = (int)knob("nbActions", 2, 4);
        e.nD = (int)knob("nD", 2, 5);
        c.groups = 1;
        if (flip("intSource", 30)) {
            e.nI = (int)knob("nI", 1, 4);
            c.groups |= 2;
        }
        if (flip("array2D", 25)) {
            e.w = (int)knob("w", 2, 3);
            e.h = (int)knob("h", 2, 3);
            if (flip("win22", 60))
                c.groups |= 16;
        }
        if (flip("arrayOps", 35))
            c.groups |= 8;
        if (flip("nanOps", 40))
            c.groups |= 32;
        e.wrapper = flip("wrapper", 20);
        static const int lv[] = {1, 2, 3, 5, 0, 0};
        e.scoreLevels = pickOf("scoreLevels", lv);
        static const int tm[] = {0, 2, 3, 5, 7};
        e.termMod = pickOf("termMod", tm);
        static const int sp[] = {0, 0, 0, 5, 20};
        e.special = pickOf("special", sp);
        static const int dl[] = {0, 0, 2, 5, 12};
        e.dataLevels = pickOf("dataLevels", dl);
        e.seats = (int)knob("seats", 2, 3);
        e.salt = (uint64_t)knob("salt", 1, 1000000);
        e.overStart = flip("overAtStart", 12);

        auto& p = c.p;
        p.archiveSize = (size_t)knob("archiveSize", 1, 40);
        if (flip("bigArchive", 8))
            p.archiveSize = (size_t)knob("archiveSizeBig", 41, 250);
        static const double ap[] = {1.0, 0.5, 0.2, 0.05, 0.8};
        p.archivingProbability = pickOf("archivingProbability", ap);
        p.nbIterationsPerPolicyEvaluation = (size_t)knob("nbIterations", 1, 3);
        p.maxNbActionsPerEval = (uint64_t)knob("maxNbActions", 1, 5);
        if (flip("noAction", 2))
            p.maxNbActionsPerEval = 0;
        static const double rd[] = {0.1, 0.25, 0.34, 0.5, 0.7, 0.9};
        p.ratioDeletedRoots = pickOf("ratioDeletedRoots", rd);
        p.nbGenerations = (uint64_t)c.nbGen;
        static const size_t me[] = {1000, 1, 2, 4, 10};
        p.maxNbEvaluationPerPolicy = pickOf("maxNbEvaluationPerPolicy", me);
        p.nbIterationsPerJob = (size_t)knob("nbIterationsPerJob", 1, 2);
        p.nbRegisters = (size_t)knob("nbRegisters", 3, 5);
        p.nbProgramConstant = flip("constants", 50)
                                  ? (size_t)knob("nbConstants", 1, 3)
                                  : 0;
        if (p.nbProgramConstant)
            c.groups |= 4;
        p.nbThreads = 1;
        p.doValidation = flip("doValidation", 30);
        auto& t = p.mutation.tpg;
        t.nbActions = (size_t)e.nbActions;
        t.nbRoots = (size_t)knob("nbRoots", 3, 10);
        t.maxInitOutgoingEdges =
            (size_t)knob("maxInitOutgoingEdges", 2, e.nbActions);
        t.maxOutgoingEdges = (size_t)knob("maxOutgoingEdges", 3, 5);
        static const double pr[] = {0.7, 0.2, 0.9, 0.05};
        t.pEdgeDeletion = pickOf("pEdgeDeletion", pr);
        t.pEdgeAddition = pickOf("pEdgeAddition", pr);
        static const double pm[] = {0.5, 0.2, 0.9};
        t.pProgramMutation = pickOf("pProgramMutation", pm);
        static const double pe[] = {0.3, 0.1, 0.9};
        t.pEdgeDestinationChange = pickOf("pEdgeDestinationChange", pe);
        static const double pa[] = {0.5, 0.0, 1.0, 0.2};
        t.pEdgeDestinationIsAction = pickOf("pEdgeDestinationIsAction", pa);
        t.forceProgramBehaviorChangeOnMutation = flip("forceChange", 40);
        auto& g = p.mutation.prog;
        g.maxProgramSize = (size_t)knob("maxProgramSize", 8, 14);
        static const double pd[] = {0.5, 0.2, 0.8};
        g.pDelete = pickOf("pDelete", pd);
        g.pAdd = pickOf("pAdd", pd);
        static const double pu[] = {1.0, 0.5};
        g.pMutate = pickOf("pMutate", pu);
        g.pSwap = pickOf("pSwap", pu);
        g.pConstantMutation = pickOf("pConstantMutation", pd);
        g.minConstValue = (int32_t)knob("minConst", -100, 0);
        g.maxConstValue =
            g.minConstValue + (int32_t)knob("constRange", 1, 100);
        c.instrumented = flip("instrumented", 20);
        return c;
    }
    void setParallelKnobs(Cfg& c)
    {
        c.p.nbThreads = (size_t)knob("nbThreads", 2, 5);
    }

    std::function<void(ClassEnv&)> g_classHook;
    void drawThreadFaults()
    {
        static const double p[] = {0.02, 0.2, 0.6, 1.0};
        sim::faults().pThreadFail =
            flip("threadFaults", 25) ? pickOf("pThreadFail", p) : 0;
    }

    // of the agent that the thread trains
    static thread_local K1State g_k1s;
    K1State k1State()
    {
        return g_k1s;
    }
    void k1Restore(const K1State& s)
    {
        g_k1s = s;
    }
    void k1Before(const TPG::TPGGraph& g, const Mutator::MutationParameters& p)
    {
        sim::OracleScope s;
        g_k1s.teams = g_k1s.actions = 0;
        for (auto v : g.getVertices())
            (dynamic_cast<const TPG::TPGAction*>(v) ? g_k1s.actions
                                                    : g_k1s.teams)++;
        g_k1s.possible = g_k1s.teams < g_k1s.actions && p.tpg.pEdgeDestinationIsAction > 0;
    }
    bool mayBeK1(const std::exception& e)
    {
        if (!g_k1s.possible || typeid(e) != typeid(std::out_of_range))
            return false;
        size_t n = 0, m = 0;
        if (sscanf(e.what(),
                   "vector::_M_range_check: __n (which is %zu) >= this->size() "
                   "(which is %zu)",
                   &n, &m) != 2)
            return false;
        return m == g_k1s.teams && n < g_k1s.actions;
    }
    namespace {
        struct GenStart : Log::LALogger
        {
            Learn::LearningAgent& a;
            const Mutator::MutationParameters p;
            GenStart(Learn::LearningAgent& la,
                     const Mutator::MutationParameters& mp, std::ostream& o)
                : LALogger(la, o), a(la), p(mp)
            {
            }
            void logHeader() override
            {
            }
            void logNewGeneration(uint64_t&) override
            {
                k1Before(*a.getTPGGraph(), p);
            }
            void logAfterPopulateTPG() override
            {
            }
            void logAfterEvaluate(Results&) override
            {
            }
            void logAfterDecimate() override
            {
            }
            void logAfterValidate(Results&) override
            {
            }
            void logEndOfTraining() override
            {
            }
        };
    } // namespace

    World::World(const Cfg& c, std::shared_ptr<ISet> set) : cfg(c), is(set)
    {
        if (!is)
            is = makeISet(c.groups);
        if (c.agent == AK_ADV)
            env = std::make_unique<AdvEnv>(c.env);
        else if (c.agent == AK_CLASS || c.agent == AK_CLASS_SEQ)
            env = std::make_unique<ClassEnv>(c.env);
        else
            env = std::make_unique<MixEnv>(c.env);
        TPG::TPGFactory plain;
        TPG::TPGInstrumentedFactory ins;
        const TPG::TPGFactory& f =
            g_factory ? *g_factory
                      : c.instrumented ? (const TPG::TPGFactory&)ins : plain;
        using namespace Learn;
        switch (c.agent) {
        case AK_LEARN:
            agent = std::make_unique<Obs<LearningAgent>>(*env, is->set, c.p, f);
            break;
        case AK_PAR:
            agent = std::make_unique<Obs<ParallelLearningAgent>>(*env, is->set,
                                                                 c.p, f);
            break;
        case AK_CLASS:
            agent = std::make_unique<Obs<ClassificationLearningAgent<>>>(
                (ClassificationLearningEnvironment&)*env, is->set, c.p, f);
            break;
        case AK_CLASS_SEQ:
            agent = std::make_unique<
                Obs<ClassificationLearningAgent<LearningAgent>>>(
                (ClassificationLearningEnvironment&)*env, is->set, c.p, f);
            break;
        case AK_ADV:
            agent = std::make_unique<Obs<AdversarialLearningAgent>>(
                (AdversarialLearningEnvironment&)*env, is->set, c.p,
                (size_t)c.env.seats, f);
            break;
        }
        genStart = std::make_unique<GenStart>(*agent, c.p.mutation, none);
    }
    World::~World()
    {
        agent.reset();
        env.reset();
    }

    // --------------------------------------------------------------- schedule
    void drawSchedule()
    {
        static const int modes[] = {
            sim::SCHED_RANDOM, sim::SCHED_RANDOM, sim::SCHED_SHARED,
            sim::SCHED_PCT,    sim::SCHED_PCT,    sim::SCHED_STALL,
            sim::SCHED_SYNC,   sim::SCHED_RUN};
        int m = pickOf("schedMode", modes);
        double p1 = 0;
        int p2 = 0;
        static const double per[] = {30, 200, 1000, 5000, 20000};
        static const double shp[] = {0.5, 0.1, 0.01, 0.001};
        static const double hor[] = {500, 5000, 50000, 200000};
        switch (m) {
        case sim::SCHED_RANDOM:
        case sim::SCHED_STALL:
            p1 = pickOf("schedPeriod", per);
            break;
        case sim::SCHED_SHARED:
            p1 = pickOf("schedShared", shp);
            break;
        case sim::SCHED_PCT:
            p1 = pickOf("schedHorizon", hor);
            p2 = (int)knob("schedChanges", 1, 5);
            break;
        default:
            break;
        }
        sim::setSched(m, p1, p2);
    }
    void quietSchedule()
    {
        sim::setSched(sim::SCHED_RUN, 0, 0);
    }
    void drawHeap()
    {
        sim::setHeap((int)knob("heapReuse", 0, sim::REUSE_NMODES - 1),
                     (int)knob("heapPlace", 0, sim::PLACE_NMODES - 1));
    }

    // ------------------------------------------------------------------ dumps
    uint64_t fnv(const void* p, size_t n, uint64_t h)
    {
        const unsigned char* c = (const unsigned char*)p;
        for (size_t i = 0; i < n; i++)
            h = (h ^ c[i]) * 1099511628211ull;
        return h;
    }
    uint64_t fnv(const std::string& s)
    {
        return fnv(s.data(), s.size());
    }
    std::string bits(double d)
    {
        char b[40];
        if (d != d)
            return "nan";
        snprintf(b, sizeof b, "%.17g", d);
        return b;
    }
    static void app(std::string& s, const char* fmt, ...)
    {
        char b[400];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        s += b;
    }
    static void appProgram(std::string& s, const Program::Program& p,
                           bool introns = true)
    {
        const Environment& env = p.getEnvironment();
        s += "[";
        for (size_t i = 0; i < p.getNbLines(); i++) {
            const Program::Line& l = p.getLine(i);
            if (introns && p.isIntron(i))
                s += "~";
            app(s, "%d=%d(", (int)l.getDestinationIndex(),
                (int)l.getInstructionIndex());
            for (size_t k = 0; k < env.getMaxNbOperands(); k++) {
                auto& o = l.getOperand(k);
                app(s, "%d.%d ", (int)o.first, (int)o.second);
            }
            s += ");";
        }
        for (size_t k = 0; k < env.getNbConstant(); k++)
            app(s, " c%d=%d", (int)k, (int)p.getConstantAt(k).value);
        s += "]";
    }
    std::string dumpProgram(const Program::Program& p)
    {
        std::string s;
        appProgram(s, p);
        return s;
    }
    int vertexIndex(TPG::TPGGraph& g, const TPG::TPGVertex* v)
    {
        auto vs = g.getVertices();
        for (size_t i = 0; i < vs.size(); i++)
            if (vs[i] == v)
                return (int)i;
        return -1;
    }
    std::string dumpGraph(TPG::TPGGraph& g, bool introns)
    {
        std::string s;
        auto vs = g.getVertices();
        std::map<const TPG::TPGVertex*, int> idx;
        for (size_t i = 0; i < vs.size(); i++)
            idx[vs[i]] = (int)i;
        std::map<const Program::Program*, int> progs;
        std::map<const TPG::TPGEdge*, int> eidx;
        int ne = 0;
        for (auto& e : g.getEdges())
            eidx[e.get()] = ne++;
        auto vi = [&](const TPG::TPGVertex* v) {
            auto it = idx.find(v);
            return it == idx.end() ? -1 : it->second;
        };
        for (size_t i = 0; i < vs.size(); i++) {
            if (auto a = dynamic_cast<const TPG::TPGAction*>(vs[i]))
                app(s, "V%d action %d\n", (int)i, (int)a->getActionID());
            else
                app(s, "V%d team\n", (int)i);
            for (auto e : vs[i]->getOutgoingEdges()) {
                auto* p = &e->getProgram();
                auto it = progs.find(p);
                bool isNew = it == progs.end();
                int pi = isNew ? (progs[p] = (int)progs.size())
                               : it->second;
                app(s, " e%d ->V%d P%d",
                    eidx.count(e) ? eidx[e] : -1, vi(e->getDestination()), pi);
                if (isNew)
                    appProgram(s, *p, introns);
                s += "\n";
            }
            s += " in";
            for (auto e : vs[i]->getIncomingEdges())
                app(s, " e%d", eidx.count(e) ? eidx[e] : -1);
            s += "\n";
        }
        return s;
    }
    std::string dumpResult(const Learn::EvaluationResult& r)
    {
        std::string s = bits(r.getResult()) + " n=" +
                        std::to_string(r.getNbEvaluation());
        if (auto c =
                dynamic_cast<const Learn::ClassificationEvaluationResult*>(
                    &r)) {
            for (size_t i = 0; i < c->getScorePerClass().size(); i++)
                s += " " + bits(c->getScorePerClass()[i]) + "/" +
                     std::to_string(c->getNbEvaluationPerClass()[i]);
        }
        return s;
    }
    std::string dumpResults(TPG::TPGGraph& g, const Results& r)
    {
        std::string s;
        auto vs = g.getVertices();
        std::map<const TPG::TPGVertex*, int> idx;
        for (size_t i = 0; i < vs.size(); i++)
            idx[vs[i]] = (int)i;
        for (auto& p : r) {
            auto it = idx.find(p.second);
            app(s, "V%d ", it == idx.end() ? -1 : it->second);
            s += dumpResult(*p.first) + "\n";
        }
        return s;
    }
    std::string dumpHandlers(
        const std::vector<std::reference_wrapper<const Data::DataHandler>>& v)
    {
        std::string s;
        for (auto& h : v) {
            const Data::DataHandler& d = h.get();
            s += "{";
            if (d.canHandle(typeid(double))) {
                size_t n = d.getAddressSpace(typeid(double));
                for (size_t i = 0; i < n; i++)
                    s += bits(*d.getDataAt(typeid(double), i)
                                   .getSharedPointer<const double>()) +
                         " ";
            }
            else if (d.canHandle(typeid(int))) {
                size_t n = d.getAddressSpace(typeid(int));
                for (size_t i = 0; i < n; i++)
                    s += std::to_string(*d.getDataAt(typeid(int), i)
                                             .getSharedPointer<const int>()) +
                         " ";
            }
            s += "}";
        }
        return s;
    }
    std::string dumpArchive(const Archive& a)
    {
        std::string s;
        const auto& dh = a.getDataHandlers();
        for (size_t i = 0; i < a.getNbRecordings(); i++) {
            auto& r = a.at(i);
            auto it = dh.find(r.dataHash);
            s += it == dh.end() ? std::string("NO DATA")
                                : dumpHandlers(it->second);
            s += " => " + bits(r.result) + "\n";
        }
        app(s, "data handlers: %d\n", (int)a.getNbDataHandlers());
        return s;
    }
    std::string dumpRng(const Mutator::RNG& r)
    {
        Mutator::RNG c(r);
        std::string s;
        for (int i = 0; i < 3; i++)
            s += std::to_string(c.getUnsignedInt64(0, UINT64_MAX)) + " ";
        return s;
    }
    std::string dumpBest(Learn::LearningAgent& la)
    {
        auto& b = la.getBestRoot();
        if (!b.first)
            return "none";
        std::string s =
            "V" + std::to_string(vertexIndex(*la.getTPGGraph(), b.first));
        if (b.second)
            s += " " + dumpResult(*b.second);
        return s;
    }
    std::string firstDiff(const std::string& a, const std::string& b)
    {
        size_t i = 0;
        while (i < a.size() && i < b.size() && a[i] == b[i])
            i++;
        size_t l = i;
        while (l > 0 && a[l - 1] != '\n')
            l--;
        auto line = [&](const std::string& s) {
            size_t e = s.find('\n', i < s.size() ? i : s.size());
            if (e == std::string::npos)
                e = s.size();
            std::string r = l < s.size() ? s.substr(l, e - l) : "<end>";
            return r.size() > 500 ? r.substr(0, 500) + "..." : r;
        };
        return "'" + line(a) + "' versus '" + line(b) + "'";
    }

    void trainAndDump(World& w, RunDump& out, bool doInit,
                      const char* skipParts)
    {
        struct NullBuf : std::streambuf
        {
            int overflow(int c) override
            {
                return c;
            }
        } nb;
        std::ostream os(&nb);
        auto& la = *w.agent;
        static std::vector<std::unique_ptr<Phases>> keep;
        Phases* ph;
        {
            sim::OracleScope s;
            ph = new Phases(la, os);
        }
        auto add = [&](const std::string& l, const std::string& t) {
            out.parts.push_back({l, t});
        };
        std::string g = "?";
        ph->newGen = [&](uint64_t n) { g = "generation " + std::to_string(n); };
        ph->populated = [&] {
            sim::OracleScope s;
            add(g + " graph after population", dumpGraph(w.graph()));
        };
        ph->evaluated = [&](Results& r) {
            sim::OracleScope s;
            add(g + " scores", dumpResults(w.graph(), r));
            add(g + " archive", dumpArchive(la.getArchive()));
        };
        ph->decimated = [&] {
            sim::OracleScope s;
            add(g + " graph after selection", dumpGraph(w.graph()));
            add(g + " best root", dumpBest(la));
        };
        ph->validated = [&](Results& r) {
            sim::OracleScope s;
            add(g + " validation scores", dumpResults(w.graph(), r));
        };
        ph->end = [&] {
            sim::OracleScope s;
            add(g + " random generator", dumpRng(la.getRNG()));
        };
        if (doInit) {
            la.init(w.cfg.seed);
            sim::OracleScope s;
            add("initial graph", dumpGraph(w.graph()));
        }
        for (int i = 0; i < w.cfg.nbGen; i++)
            la.trainOneGeneration((uint64_t)i);
        {
            sim::OracleScope s;
            uint64_t h = 7;
            for (auto& p : out.parts)
                h = fnv(p.second.data(), p.second.size(), h);
            sim::stateHash(h);
            // the agent keeps a reference to the logger: neutralise it
            ph->newGen = nullptr;
            ph->populated = ph->decimated = ph->end = nullptr;
            ph->evaluated = ph->validated = nullptr;
        }
    }
    void compareRuns(const char* cls, const char* what, const RunDump& a,
                     const RunDump& b)
    {
        sim::OracleScope s;
        for (size_t i = 0; i < a.parts.size() && i < b.parts.size(); i++) {
            if (a.parts[i].first != b.parts[i].first)
                sim::violation(cls, "%s: phases differ: %s versus %s", what,
                               a.parts[i].first.c_str(),
                               b.parts[i].first.c_str());
            if (a.parts[i].second != b.parts[i].second)
                sim::violation(
                    cls, "%s: %s differs: %s", what, a.parts[i].first.c_str(),
                    firstDiff(a.parts[i].second, b.parts[i].second).c_str());
        }
        if (a.parts.size() != b.parts.size())
            sim::violation(cls, "%s: %zu versus %zu phases", what,
                           a.parts.size(), b.parts.size());
    }

    // ---------------------------------------------------- reference semantics
    double Ref::run(const Program::Program& p, int,
                    const std::function<double(int, int, uint64_t, double*)>&
                        fetch) const
    {
        double reg[64] = {0};
        const Instructions::Set& set = p.getEnvironment().getInstructionSet();
        for (size_t i = 0; i < p.getNbLines(); i++) {
            const Program::Line& l = p.getLine(i);
            const InstrInfo* in =
                is.find(&set.getInstruction(l.getInstructionIndex()));
            if (!in)
                sim::violation("unknown_instruction",
                               "a program designates an unknown instruction");
            double v[16];
            int n = 0;
            for (size_t k = 0; k < in->ops.size(); k++) {
                int src = (int)l.getOperand(k).first;
                uint64_t loc = l.getOperand(k).second;
                if (src == 0) {
                    if (in->ops[k] == OK_DOUBLE)
                        v[n++] = reg[loc % nbReg];
                    else {
                        uint64_t a = loc % (nbReg - 1);
                        v[n++] = reg[a];
                        v[n++] = reg[a + 1];
                    }
                }
                else if (nbCst && src == 1)
                    v[n++] = (double)p.getConstantAt(loc % nbCst).value;
                else {
                    double o[4];
                    int m = (int)fetch(src - 1 - (nbCst ? 1 : 0), in->ops[k],
                                       loc, o);
                    for (int q = 0; q < m; q++)
                        v[n++] = o[q];
                }
            }
            reg[l.getDestinationIndex()] = in->eval(v);
        }
        return reg[0];
    }
    // values of a source, whatever its origin
    static int windowOf(const EnvCfg& c, int src, int kind, uint64_t loc,
                        const std::function<double(int, int)>& at, double* o)
    {
        // kinds of the sources, in order
        int k = src == 0 ? 0 : (src == 1 && c.nI > 0) ? 1 : 2;
        if (k == 0) {
            if (kind == OK_DOUBLE) {
                o[0] = at(src, (int)(loc % (uint64_t)c.nD));
                return 1;
            }
            uint64_t a = loc % (uint64_t)(c.nD - 1);
            o[0] = at(src, (int)a);
            o[1] = at(src, (int)a + 1);
            return 2;
        }
        if (k == 1) {
            o[0] = at(src, (int)(loc % (uint64_t)c.nI));
            return 1;
        }
        if (kind == OK_DOUBLE) {
            o[0] = at(src, (int)(loc % (uint64_t)(c.w * c.h)));
            return 1;
        }
        if (kind == OK_DARR2) {
            uint64_t a = loc % (uint64_t)(c.h * (c.w - 1));
            int y = (int)(a / (uint64_t)(c.w - 1)),
                x = (int)(a % (uint64_t)(c.w - 1));
            o[0] = at(src, y * c.w + x);
            o[1] = at(src, y * c.w + x + 1);
            return 2;
        }
        uint64_t a = loc % (uint64_t)((c.h - 1) * (c.w - 1));
        int y = (int)(a / (uint64_t)(c.w - 1)),
            x = (int)(a % (uint64_t)(c.w - 1));
        o[0] = at(src, y * c.w + x);
        o[1] = at(src, y * c.w + x + 1);
        o[2] = at(src, (y + 1) * c.w + x);
        o[3] = at(src, (y + 1) * c.w + x + 1);
        return 4;
    }
    std::vector<size_t> touched(const EnvCfg& c, int src, int kind,
                                uint64_t loc)
    {
        std::vector<size_t> r;
        double o[4];
        windowOf(
            c, src, kind, loc,
            [&](int, int i) {
                r.push_back((size_t)i);
                return 0.0;
            },
            o);
        return r;
    }
    double Ref::bid(const Program::Program& p, const EnvCore& e) const
    {
        // the values are recomputed from the environment state, not read
        // through the data handlers
        uint64_t st = e.state;
        if (e.c.dataLevels)
            st = st % (uint64_t)e.c.dataLevels;
        auto at = [&](int src, int i) -> double {
            int k = src == 0 ? 0 : (src == 1 && e.c.nI > 0) ? 1 : 2;
            if (k == 0)
                return valueOf(e.c, mixh(st * 31 + i + 1));
            if (k == 1)
                return (double)((int)(mixh(st * 37 + i + 1001) % 41) - 20);
            return valueOf(e.c, mixh(st * 41 + i + 2001));
        };
        return run(p, 0, [&](int src, int kind, uint64_t loc, double* o) {
            return (double)windowOf(e.c, src, kind, loc, at, o);
        });
    }
    double Ref::bidOnCopies(
        const Program::Program& p, const EnvCore& shape,
        const std::vector<std::reference_wrapper<const Data::DataHandler>>& cp)
        const
    {
        auto at = [&](int src, int i) -> double {
            const Data::DataHandler& d = cp.at(src).get();
            if (d.canHandle(typeid(double)))
                return *d.getDataAt(typeid(double), i)
                            .getSharedPointer<const double>();
            return *d.getDataAt(typeid(int), i).getSharedPointer<const int>();
        };
        return run(p, 0, [&](int src, int kind, uint64_t loc, double* o) {
            return (double)windowOf(shape.c, src, kind, loc, at, o);
        });
    }
    std::vector<const TPG::TPGVertex*> Ref::path(
        const TPG::TPGVertex* root, const EnvCore& data,
        std::vector<const TPG::TPGEdge*>* edges, uint64_t* ties,
        std::vector<std::pair<const Program::Program*, double>>* bids) const
    {
        std::vector<const TPG::TPGVertex*> r{root};
        const TPG::TPGVertex* v = root;
        while (dynamic_cast<const TPG::TPGTeam*>(v)) {
            const TPG::TPGEdge* best = nullptr;
            double bb = 0;
            for (auto e : v->getOutgoingEdges()) {
                double b = bid(e->getProgram(), data);
                if (b != b)
                    b = -INFINITY;
                if (bids)
                    bids->push_back({&e->getProgram(), b});
                if (best && b == bb && ties)
                    ++*ties;
                if (!best || b >= bb) {
                    best = e;
                    bb = b;
                }
            }
            if (!best)
                sim::violation("team_without_edge",
                               "a team without outgoing edge was reached");
            if (edges)
                edges->push_back(best);
            v = best->getDestination();
            r.push_back(v);
            if (r.size() > 10000)
                sim::violation("cycle", "policy path longer than 10000");
        }
        return r;
    }
} // namespace H
