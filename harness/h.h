// Common parts of the workloads: knobs, environments, agents, dumps, reference
// interpreter. Compiled with the same instrumentation as the library.
#ifndef H_H
#define H_H
#include <cinttypes>
#include <cmath>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "../sim/sim.h"
#include <gegelati.h>

namespace H {

    // ---- knobs: named integers decided by the seed, overridable ---------
    int64_t knob(const char* name, int64_t lo, int64_t hi);
    // true with `pct` percent
    bool flip(const char* name, int pct);
    template <class T, size_t N> T pickOf(const char* name, const T (&v)[N])
    {
        return v[knob(name, 0, (int64_t)N - 1)];
    }
    // put before the names of the knobs
    void knobPrefix(const std::string& p);
    void overrideKnob(const std::string& name, int64_t v);

    // ---- instructions with known semantics --------------------------------
    enum OperandKind
    {
        OK_DOUBLE,
        OK_INT,
        OK_CONST,
        OK_DARR2,
        OK_DARR22
    };
    struct InstrInfo
    {
        const char* name;
        const Instructions::Instruction* instr;
        std::vector<OperandKind> ops;
        // operands flattened as doubles
        double (*eval)(const double*);
    };
    struct ISet
    {
        std::vector<std::unique_ptr<Instructions::Instruction>> owned;
        std::vector<InstrInfo> infos;
        Instructions::Set set;
        const InstrInfo* find(const Instructions::Instruction* i) const
        {
            for (auto& x : infos)
                if (x.instr == i)
                    return &x;
            return nullptr;
        }
    };
    // bit mask of the groups: 1 arithmetic (always), 2 int operands, 4
    // constants, 8 arrays, 16 2D arrays, 32 operations that produce NaN, 64 an
    // operation that may fail
    std::unique_ptr<ISet> makeISet(int groups);

    // ---- trace of what the library does to the environments ---------------
    enum CallKind
    {
        C_RESET,
        C_ACT,
        C_SCORE,
        C_TERM,
        C_CLONE,
        C_DESTROY,
        C_SOURCES,
        C_JOB_BEGIN,
        C_JOB_END,
        C_INSTR
    };
    struct Call
    {
        int kind;
        int inst; // environment instance
        int tid;
        uint64_t a = 0, b = 0, c = 0, d = 0;
        double x = 0;
        const void* p = nullptr;
    };
    struct EnvCore;
    struct Sink
    {
        bool keep = true;
        std::vector<Call> calls;
        std::function<void(const Call&, EnvCore*)> on;
    };
    extern Sink* g_sink;
    extern int g_liveEnvs;
    extern int g_envCount;
    void emit(Call c, EnvCore* core);
    // called where the environment or an instruction may fail; may throw
    extern std::function<void(int where)> g_failHook;
    inline void mayFail(int where)
    {
        if (g_failHook)
            g_failHook(where);
    }

    // ---- environments --------------------------------------------------------
    struct EnvCfg
    {
        int nbActions = 3;
        int nD = 3; // doubles
        int nI = 0; // ints
        int w = 0, h = 0;
        int scoreLevels = 4;
        int termMod = 5; // terminal when state % termMod == 0; 0: never
        bool overStart = false; // some games are over after their reset
        bool copyable = true;
        int special = 0; // percent of NaN / inf / huge values in the data
        int seats = 2;
        uint64_t salt = 1;
        int quirk = 0; // extra behaviour: 1 throws, 2 writes its RNG...
        bool wrapper = false; // data exposed through ArrayWrapper
        int dataLevels = 0;   // 0: any; k: few distinct states
    };
    struct EnvCore
    {
        EnvCfg c;
        int inst;
        uint64_t state = 0;
        uint64_t evalSeed = 0;
        int mode = 0;
        uint64_t iter = 0, gen = 0;
        int nbAct = 0;
        double acc = 0;
        std::vector<double> seatAcc;
        Data::PrimitiveTypeArray<double> dd;
        Data::PrimitiveTypeArray<int> ii;
        Data::PrimitiveTypeArray2D<double> d2;
        std::vector<double> wrapped;
        std::unique_ptr<Data::ArrayWrapper<double>> wr;

        explicit EnvCore(const EnvCfg& cfg);
        EnvCore(const EnvCore& o);
        ~EnvCore();
        void reset(size_t seed, Learn::LearningMode m, uint64_t it,
                   uint64_t g);
        void act(uint64_t action);
        bool terminal() const;
        double score() const;
        std::vector<std::reference_wrapper<const Data::DataHandler>> sources();
        void fill();
        // raw values for the reference interpreter: source index (without
        // registers and constants)
        int nbSources() const;
    };

    struct MixEnv : public Learn::LearningEnvironment
    {
        EnvCore k;
        explicit MixEnv(const EnvCfg& c) : LearningEnvironment(c.nbActions), k(c)
        {
        }
        MixEnv(const MixEnv& o) = default;
        ~MixEnv() override
        {
        }
        bool isCopyable() const override
        {
            return k.c.copyable;
        }
        LearningEnvironment* clone() const override;
        void reset(size_t seed, Learn::LearningMode mode, uint16_t it,
                   uint64_t gen) override
        {
            k.reset(seed, mode, it, gen);
        }
        void doAction(uint64_t a) override
        {
            k.act(a);
        }
        bool isTerminal() const override
        {
            return k.terminal();
        }
        double getScore() const override
        {
            return k.score();
        }
        std::vector<std::reference_wrapper<const Data::DataHandler>>
        getDataSources() override
        {
            return k.sources();
        }
    };
    struct ClassEnv;
    // called after each action and reset of a classification environment
    extern std::function<void(ClassEnv&)> g_classHook;
    struct ClassEnv : public Learn::ClassificationLearningEnvironment
    {
        mutable EnvCore k;
        explicit ClassEnv(const EnvCfg& c)
            : ClassificationLearningEnvironment(c.nbActions), k(c)
        {
        }
        ClassEnv(const ClassEnv& o) = default;
        bool isCopyable() const override
        {
            return k.c.copyable;
        }
        LearningEnvironment* clone() const override;
        void reset(size_t seed, Learn::LearningMode mode, uint16_t it,
                   uint64_t gen) override
        {
            ClassificationLearningEnvironment::reset(seed, mode, it, gen);
            k.reset(seed, mode, it, gen);
            this->currentClass = k.state % (uint64_t)k.c.nbActions;
            if (g_classHook)
                g_classHook(*this);
        }
        void doAction(uint64_t a) override
        {
            ClassificationLearningEnvironment::doAction(a);
            k.act(a);
            this->currentClass = (k.state >> 3) % (uint64_t)k.c.nbActions;
            if (g_classHook)
                g_classHook(*this);
        }
        bool isTerminal() const override
        {
            return k.terminal();
        }
        std::vector<std::reference_wrapper<const Data::DataHandler>>
        getDataSources() override
        {
            return k.sources();
        }
    };
    struct AdvEnv : public Learn::AdversarialLearningEnvironment
    {
        EnvCore k;
        explicit AdvEnv(const EnvCfg& c)
            : AdversarialLearningEnvironment(c.nbActions), k(c)
        {
        }
        AdvEnv(const AdvEnv& o) = default;
        bool isCopyable() const override
        {
            return k.c.copyable;
        }
        LearningEnvironment* clone() const override;
        void reset(size_t seed, Learn::LearningMode mode, uint16_t it,
                   uint64_t gen) override
        {
            k.reset(seed, mode, it, gen);
        }
        void doAction(uint64_t a) override
        {
            k.act(a);
        }
        bool isTerminal() const override
        {
            return k.terminal();
        }
        std::shared_ptr<Learn::AdversarialEvaluationResult> getScores()
            const override;
        std::vector<std::reference_wrapper<const Data::DataHandler>>
        getDataSources() override
        {
            return k.sources();
        }
    };
    EnvCore* coreOf(Learn::LearningEnvironment* le);

    // ---- agents -------------------------------------------------------------
    enum AgentKind
    {
        AK_LEARN,
        AK_PAR,
        AK_CLASS,
        AK_CLASS_SEQ,
        AK_ADV,
        AK_CLASS_ADV_UNUSED
    };
    const char* agentName(int k);
    struct JobObs
    {
        // called around evaluateJob, inside an oracle scope
        std::function<void(const Learn::Job&, uint64_t gen, int mode,
                           Learn::LearningEnvironment&)>
            begin;
        std::function<void(const Learn::Job&, uint64_t gen, int mode,
                           const std::shared_ptr<Learn::EvaluationResult>&)>
            end;
    };
    extern JobObs* g_jobs;

    struct Cfg
    {
        int agent = AK_PAR;
        EnvCfg env;
        Learn::LearningParameters p;
        uint64_t seed = 0;
        int nbGen = 2;
        bool instrumented = false;
        int groups = 1;
    };
    // draws everything from the knobs; `agentMask` selects the agent kinds
    Cfg drawCfg(int agentMask, int maxGen = 3);
    void setParallelKnobs(Cfg& c); // nbThreads from knobs
    // From now on, the system may refuse to create threads.
    void drawThreadFaults();
    void noteCfg(const Cfg& c);

    // Known finding K1: what the population step starts from. mayBeK1() tells
    // whether an exception is this finding.
    void k1Before(const TPG::TPGGraph& g, const Mutator::MutationParameters& p);
    bool mayBeK1(const std::exception& e);
    struct K1State
    {
        size_t teams = 0, actions = 0;
        bool possible = false;
    };
    K1State k1State();
    void k1Restore(const K1State& s);

    // factory used instead of the one of the configuration, when set
    extern const TPG::TPGFactory* g_factory;
    // An agent with its environment and instruction set
    struct World
    {
        Cfg cfg;
        std::shared_ptr<ISet> is;
        std::ostringstream none;
        std::unique_ptr<Learn::LearningEnvironment> env;
        std::unique_ptr<Learn::LearningAgent> agent;
        std::unique_ptr<Log::LALogger> genStart;
        explicit World(const Cfg& c, std::shared_ptr<ISet> set = nullptr);
        ~World();
        EnvCore* core()
        {
            return coreOf(env.get());
        }
        TPG::TPGGraph& graph()
        {
            return *agent->getTPGGraph();
        }
    };

    // ---- schedule / heap / clock set-up ------------------------------------
    void drawSchedule();
    void quietSchedule(); // no preemption
    void drawHeap();

    // ---- canonical dumps ----------------------------------------------------
    typedef std::multimap<std::shared_ptr<Learn::EvaluationResult>,
                          const TPG::TPGVertex*>
        Results;
    uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
    uint64_t fnv(const std::string& s);
    std::string bits(double d);
    std::string dumpProgram(const Program::Program& p);
    std::string dumpGraph(TPG::TPGGraph& g, bool introns = true);
    std::string dumpResults(TPG::TPGGraph& g, const Results& r);
    std::string dumpResult(const Learn::EvaluationResult& r);
    std::string dumpHandlers(
        const std::vector<std::reference_wrapper<const Data::DataHandler>>& v);
    std::string dumpArchive(const Archive& a);
    std::string dumpRng(const Mutator::RNG& r);
    std::string dumpBest(Learn::LearningAgent& la);
    // index of a vertex in graph order, -1 if absent
    int vertexIndex(TPG::TPGGraph& g, const TPG::TPGVertex* v);
    std::string firstDiff(const std::string& a, const std::string& b);

    // Logger that gives access to the phases
    struct Phases : public Log::LALogger
    {
        std::function<void(uint64_t)> newGen;
        std::function<void()> populated, decimated, end;
        std::function<void(Results&)> evaluated, validated;
        explicit Phases(Learn::LearningAgent& la, std::ostream& o)
            : LALogger(la, o)
        {
        }
        void logHeader() override
        {
        }
        void logNewGeneration(uint64_t& g) override
        {
            if (newGen)
                newGen(g);
        }
        void logAfterPopulateTPG() override
        {
            if (populated)
                populated();
        }
        void logAfterEvaluate(Results& r) override
        {
            if (evaluated)
                evaluated(r);
        }
        void logAfterDecimate() override
        {
            if (decimated)
                decimated();
        }
        void logAfterValidate(Results& r) override
        {
            if (validated)
                validated(r);
        }
        void logEndOfTraining() override
        {
            if (end)
                end();
        }
    };

    // One string per generation: graph, scores, archive, best, generator.
    struct RunDump
    {
        std::vector<std::pair<std::string, std::string>> parts; // label, text
    };
    // Trains c.nbGen generations and records everything observable.
    void trainAndDump(World& w, RunDump& out, bool doInit = true,
                      const char* skipParts = "");
    // violation when different
    void compareRuns(const char* cls, const char* what, const RunDump& a,
                     const RunDump& b);

    // ---- reference interpreter ------------------------------------------------
    struct RefData
    {
        const EnvCore* env = nullptr; // live data
        const std::vector<std::reference_wrapper<const Data::DataHandler>>*
            handlers = nullptr; // or stored copies of the same shapes
        const EnvCore* shape = nullptr;
    };
    struct Ref
    {
        const ISet& is;
        size_t nbReg, nbCst;
        Ref(const ISet& i, size_t r, size_t c) : is(i), nbReg(r), nbCst(c)
        {
        }
        // all lines executed, introns included
        double bid(const Program::Program& p, const EnvCore& data) const;
        double bidOnCopies(
            const Program::Program& p, const EnvCore& shape,
            const std::vector<std::reference_wrapper<const Data::DataHandler>>&
                copies) const;
        double run(const Program::Program& p, int nsrc,
                   const std::function<double(int src, int kind, uint64_t loc,
                                              double* out)>& fetch) const;
        // path followed from a root
        std::vector<const TPG::TPGVertex*> path(const TPG::TPGVertex* root,
                                                const EnvCore& data,
                                                std::vector<const TPG::TPGEdge*>*
                                                    edges = nullptr,
                                                uint64_t* ties = nullptr,
                                                std::vector<std::pair<
                                                    const Program::Program*,
                                                    double>>* bids =
                                                    nullptr) const;
    };

    // elements read by an operand in a source (registers and constants
    // excluded from the numbering)
    std::vector<size_t> touched(const EnvCfg& c, int src, int kind,
                                uint64_t loc);

    inline bool sameBits(double a, double b)
    {
        if (a != a && b != b)
            return true;
        return memcmp(&a, &b, 8) == 0;
    }

    // ---- property entry points -------------------------------------------------
    struct PropEntry
    {
        const char* id;
        void (*fn)();
    };
    void registerProp(const char* id, void (*fn)());
    struct Reg
    {
        Reg(const char* id, void (*fn)())
        {
            registerProp(id, fn);
        }
    };
    // Runs f with preemption/fault accounting paused.
    template <class F> void oracle(F f)
    {
        sim::OracleScope s;
        f();
    }
} // namespace H
#define PROP(id)                                                               \
    static void run_##id();                                                    \
    static H::Reg reg_##id(#id, run_##id);                                     \
    static void run_##id()
#endif
