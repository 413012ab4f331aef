// P23: agents of one process do not influence each other.
#include "h.h"
#include <mutex>
#include <thread>
#include "codeGen/tpgGenerationEngineFactory.h"
#include "file/parametersParser.h"
#include "file/tpgGraphDotExporter.h"
#include "file/tpgGraphDotImporter.h"
#include "log/laBasicLogger.h"
#include "log/laPolicyStatsLogger.h"
#include "tpg/instrumented/executionStats.h"
#include "tpg/instrumented/tpgExecutionEngineInstrumented.h"
#include "tpg/policyStats.h"
using namespace H;

namespace {
    enum Op
    {
        O_INIT,
        O_GEN,
        O_EXPORT,
        O_IMPORT,
        O_PARAMS,
        O_POLICY,
        O_CODE,
        O_INFER,
        O_EVAL,
        O_STATS,
        O_BEST,
        O_AGAIN, // initialised again
        O_NOPS
    };
    // What is called between the actions of an agent; runs other agents.
    struct Inner
    {
        std::mutex m;
        bool busy = false;
        double p = 0;
        std::function<void()> step;
        uint64_t done = 0;
    };
    Inner* inner = nullptr;

    struct Ag
    {
        Cfg c;
        int id;
        std::shared_ptr<ISet> set;
        std::vector<int> plan;
        size_t at = 0;
        uint64_t seed;
        RunDump out;
        bool k1 = false, done = false;
        int gen = 0;
        std::string last;
        // the loggers outlive the agent
        std::ostringstream policy, cycles, basic, none;
        std::unique_ptr<World> w;
        std::unique_ptr<Phases> ph;
        std::unique_ptr<Log::LAPolicyStatsLogger> l1;
        std::unique_ptr<Log::CycleDetectionLALogger> l2;
        std::unique_ptr<Log::LABasicLogger> l3;
        std::unique_ptr<File::TPGGraphDotExporter> ex;
        std::unique_ptr<TPG::PolicyStats> ps;
        std::unique_ptr<TPG::TPGExecutionEngine> ee;
        int loggers;

        Ag(const Cfg& cfg, int i, std::shared_ptr<ISet> s, uint64_t sd)
            : c(cfg), id(i), set(s), seed(sd)
        {
            sim::Rng r;
            r.seed(sd);
            loggers = (int)r.below(8);
            plan.push_back(O_INIT);
            int left = c.nbGen;
            int others = 2 + (int)r.below(6);
            while (left || others) {
                if (left && (!others || r.below(2))) {
                    plan.push_back(O_GEN);
                    left--;
                }
                else {
                    int o = O_EXPORT + (int)r.below(O_NOPS - O_EXPORT);
                    if ((o == O_BEST || o == O_AGAIN) && r.below(3))
                        o = O_EVAL;
                    plan.push_back(o);
                    others--;
                }
            }
            plan.push_back(O_INFER);
        }
        ~Ag()
        {
            ee.reset();
            ps.reset();
            ex.reset();
            w.reset();
        }
        void add(const std::string& l, const std::string& t)
        {
            sim::OracleScope s;
            out.parts.push_back(
                {"step " + std::to_string(at) + ": " + l, t});
        }
        std::string path(const char* ext)
        {
            return "/simfs/agent" + std::to_string(id) + ext;
        }
        void init()
        {
            w = std::make_unique<World>(c, set);
            auto& la = *w->agent;
            ph = std::make_unique<Phases>(la, none);
            if (loggers & 1)
                l1 = std::make_unique<Log::LAPolicyStatsLogger>(la, policy);
            if (loggers & 2)
                l2 = std::make_unique<Log::CycleDetectionLALogger>(la, cycles,
                                                                   true);
            if (loggers & 4)
                l3 = std::make_unique<Log::LABasicLogger>(la, basic);
            ph->populated = [this] {
                sim::OracleScope s;
                add("graph after population", dumpGraph(w->graph()));
            };
            ph->evaluated = [this](Results& r) {
                sim::OracleScope s;
                add("scores", dumpResults(w->graph(), r));
                add("archive", dumpArchive(w->agent->getArchive()));
            };
            ph->decimated = [this] {
                sim::OracleScope s;
                add("graph after selection", dumpGraph(w->graph()));
                add("best root", dumpBest(*w->agent));
            };
            ph->validated = [this](Results& r) {
                sim::OracleScope s;
                add("validation scores", dumpResults(w->graph(), r));
            };
            la.init(c.seed);
        }
        const TPG::TPGVertex* root()
        {
            auto r = w->graph().getRootVertices();
            return r.empty() ? nullptr : r[seed % r.size()];
        }
        void state(const char* what)
        {
            sim::OracleScope s;
            add(std::string(what) + " graph", dumpGraph(w->graph()));
            add(std::string(what) + " generator", dumpRng(w->agent->getRNG()));
        }
        void run(int op)
        {
            auto& la = *w->agent;
            auto& g = w->graph();
            auto& env = la.getEnvironment();
            switch (op) {
            case O_GEN:
                la.trainOneGeneration((uint64_t)gen++);
                state("training");
                break;
            case O_AGAIN:
                la.init(c.seed + 1);
                gen = 0;
                state("initialised again");
                break;
            case O_EXPORT: {
                std::string p = path(".dot");
                bool first = !ex;
                if (first)
                    ex = std::make_unique<File::TPGGraphDotExporter>(p.c_str(),
                                                                     g);
                ex->print();
                // later, the names it gives depend on the addresses
                if (first)
                    add("exported graph", sim::fsRead(p));
                break;
            }
            case O_IMPORT: {
                std::string p = path("_i.dot");
                {
                    File::TPGGraphDotExporter e(p.c_str(), g);
                    e.print();
                }
                TPG::TPGGraph h(env);
                File::TPGGraphDotImporter im(p.c_str(), env, h);
                sim::OracleScope s;
                add("imported graph", dumpGraph(h));
                break;
            }
            case O_PARAMS: {
                std::string p = path(".json");
                File::ParametersParser::writeParametersToJson(p.c_str(), c.p);
                add("parameters", sim::fsRead(p));
                Learn::LearningParameters q;
                File::ParametersParser::loadParametersFromJson(p.c_str(), q);
                p = path("_2.json");
                File::ParametersParser::writeParametersToJson(p.c_str(), q);
                add("parameters read", sim::fsRead(p));
                break;
            }
            case O_POLICY: {
                if (!root())
                    break;
                if (!ps)
                    ps = std::make_unique<TPG::PolicyStats>();
                ps->setEnvironment(env);
                ps->analyzePolicy(root());
                std::ostringstream o;
                o << *ps;
                add("statistics of a policy", o.str());
                ps->clear();
                break;
            }
            case O_CODE: {
                if (w->is->set.getNbInstructions() !=
                    env.getInstructionSet().getNbInstructions())
                    break;
                for (size_t i = 0; i < w->is->set.getNbInstructions(); i++)
                    if (!w->is->set.getInstruction(i).isPrintable())
                        return;
                std::string n = "agent" + std::to_string(id) + "_c";
                {
                    CodeGen::TPGGenerationEngineFactory f(
                        seed & 2
                            ? CodeGen::TPGGenerationEngineFactory::stackMode
                            : CodeGen::TPGGenerationEngineFactory::switchMode);
                    auto e = f.create(n, g, "/simfs/");
                    e->generateTPGGraph();
                }
                for (auto x : {".c", ".h", "_program.c", "_program.h"})
                    add(std::string("generated ") + x,
                        sim::fsRead("/simfs/" + n + x));
                break;
            }
            case O_INFER:
                add("decisions", decisions());
                break;
            case O_EVAL: {
                auto r = la.evaluateAllRoots(
                    (uint64_t)gen, (Learn::LearningMode)(seed % 3));
                sim::OracleScope s;
                add("evaluation", dumpResults(g, r));
                add("archive", dumpArchive(la.getArchive()));
                break;
            }
            case O_STATS: {
                if (!c.instrumented || !root())
                    break;
                TPG::TPGExecutionEngineInstrumented ti(env);
                // the environment is where its last evaluation left it
                w->env->reset(seed, Learn::LearningMode::TESTING, 0, 0);
                for (int i = 0; i < 2; i++)
                    ti.executeFromRoot(*root());
                TPG::ExecutionStats st;
                st.analyzeExecution(ti, &g);
                std::string p = path("_s.json");
                st.writeStatsToJson(p.c_str(), seed & 4);
                add("statistics of executions", sim::fsRead(p));
                break;
            }
            default:
                if (c.p.doValidation && c.agent == AK_ADV)
                    break;
                if (gen)
                    la.keepBestPolicy();
                state("best policy");
                gen = 0;
            }
        }
        std::string decisions()
        {
            std::string t;
            auto& env = w->agent->getEnvironment();
            if (!root())
                return t;
            if (!ee) {
                if (c.instrumented)
                    ee = std::make_unique<TPG::TPGExecutionEngineInstrumented>(
                        env);
                else
                    ee = std::make_unique<TPG::TPGExecutionEngine>(env);
            }
            auto& le = *w->env;
            le.reset(seed, Learn::LearningMode::TESTING, 0, 0);
            for (int i = 0; i < 4; i++) {
                auto p = ee->executeFromRoot(*root());
                auto a = dynamic_cast<const TPG::TPGAction*>(p.back());
                {
                    sim::OracleScope s;
                    for (auto v : p)
                        t += std::to_string(vertexIndex(w->graph(), v)) + " ";
                }
                le.doAction(a ? a->getActionID() : 0);
            }
            return t;
        }
        void rest()
        {
            try {
                while (step())
                    ;
            }
            catch (std::exception& e) {
                sim::violation("agents_interfere",
                               "agent %d, in a thread, throws %s %s", id,
                               typeid(e).name(), e.what());
            }
        }
        // the last decisions, again
        void again()
        {
            std::string t = decisions();
            sim::OracleScope s;
            for (auto& p : out.parts)
                if (p.first == last && p.second != t)
                    sim::violation("agents_interfere",
                                   "agent %d decides %s instead of %s inside "
                                   "another agent",
                                   id, t.c_str(), p.second.c_str());
        }
        // false when there is nothing left to do
        bool step()
        {
            if (done)
                return false;
            if (at >= plan.size()) {
                add("log of policies", policy.str());
                add("log of cycles", cycles.str());
                sim::OracleScope s;
                add("archive", dumpArchive(w->agent->getArchive()));
                last = "step " + std::to_string(at - 1) + ": decisions";
                done = true;
                return false;
            }
            auto k = k1State();
            try {
                if (plan[at] == O_INIT) {
                    init();
                    state("initial");
                }
                else
                    run(plan[at]);
            }
            catch (std::out_of_range& e) {
                add("exception", e.what());
                k1 = mayBeK1(e);
                done = true;
                if (!k1)
                    throw;
            }
            k1Restore(k);
            at++;
            return !done;
        }
    };

    void between(int)
    {
        if (!inner)
            return;
        {
            sim::OracleScope s;
            if (inner->busy || !sim::workRng().chance(inner->p))
                return;
            inner->busy = true;
        }
        {
            std::lock_guard<std::mutex> l(inner->m);
            inner->step();
            inner->done++;
        }
        sim::OracleScope s;
        inner->busy = false;
    }

    struct Plan23
    {
        int n;
        std::vector<Cfg> c;
        std::vector<uint64_t> seed;
        std::shared_ptr<ISet> shared;
    };
    std::unique_ptr<Ag> make(const Plan23& p, int i)
    {
        return std::make_unique<Ag>(p.c[(size_t)i], i, p.shared,
                                    p.seed[(size_t)i]);
    }
} // namespace

PROP(P23)
{
    Plan23 p;
    p.n = (int)knob("agents", 2, 3);
    int mask = 1 << AK_LEARN | 1 << AK_PAR | 1 << AK_CLASS |
               1 << AK_CLASS_SEQ | 1 << AK_ADV;
    bool shared = flip("sharedInstructions", 40);
    int groups = 64;
    static const char* pre[] = {"", "b.", "c."};
    for (int i = 0; i < p.n; i++) {
        knobPrefix(pre[i]);
        Cfg c;
        if (i && flip("twin", 25)) {
            c = p.c[0];
            if (flip("otherSeed", 70))
                c.seed += 1 + (uint64_t)knob("seedOffset", 0, 100);
            if (flip("otherData", 50))
                c.env.salt++;
        }
        else {
            c = drawCfg(mask, 2);
            c.p.mutation.tpg.nbRoots = (size_t)knob("nbRoots23", 2, 6);
            c.p.archiveSize = std::min<size_t>(c.p.archiveSize, 30);
            if (flip("threads", 70) && c.agent != AK_LEARN &&
                c.agent != AK_CLASS_SEQ)
                c.p.nbThreads = (size_t)knob("nbThreads", 2, 3);
        }
        c.groups |= 64;
        groups |= c.groups;
        p.c.push_back(c);
        p.seed.push_back((uint64_t)knob("planSeed", 0, 1 << 30));
        sim::note((std::string(pre[i]) + "agentName").c_str(),
                  agentName(c.agent));
    }
    knobPrefix("");
    if (shared) {
        for (auto& c : p.c)
            c.groups = groups;
        p.shared = makeISet(groups);
    }
    // an environment says which instructions it leaves out
    std::cout.rdbuf(nullptr);
    drawHeap();
    quietSchedule();
    sim::raceDetection(false);
    g_failHook = between;
    std::vector<std::unique_ptr<Ag>> alone, all;
    bool kept = flip("keptAgents", 40);
    std::vector<RunDump> want((size_t)p.n);
    for (int i = 0; i < p.n; i++) {
        auto a = make(p, i);
        while (a->step())
            ;
        if (a->k1)
            sim::skip("K1");
        want[(size_t)i] = a->out;
        if (kept)
            alone.push_back(std::move(a));
    }
    sim::raceDetection(true);
    drawSchedule();
    for (int i = 0; i < p.n; i++)
        all.push_back(make(p, i));
    int mode = (int)knob("together", 0, 5);
    if (mode >= 3)
        drawThreadFaults();
    auto& r = sim::workRng();
    const char* how = "";
    if (mode < 3) {
        how = "in threads";
        std::vector<std::thread> th;
        for (int i = 1; i < p.n; i++)
            th.emplace_back([&, i] { all[(size_t)i]->rest(); });
        drawThreadFaults();
        all[0]->rest();
        for (auto& t : th)
            t.join();
        sim::probe("agents_in_threads");
    }
    else if (mode < 4) {
        how = "in turn";
        for (bool more = true; more;) {
            more = false;
            size_t k = r.below((uint64_t)p.n);
            for (int i = 0; i < p.n; i++)
                more = all[(k + (size_t)i) % (size_t)p.n]->step() || more;
        }
        sim::probe("agents_in_turn");
    }
    else {
        how = "one inside the other";
        Inner in;
        static const double ps[] = {0.5, 0.1, 0.02};
        in.p = pickOf("pInner", ps);
        size_t k = 0;
        in.step = [&] {
            auto& a = *all[1 + k++ % (size_t)(p.n - 1)];
            if (!a.step() && in.done < 300)
                a.again();
        };
        inner = &in;
        while (all[0]->step())
            ;
        inner = nullptr;
        std::lock_guard<std::mutex> l(in.m);
        for (int i = 1; i < p.n; i++)
            while (all[(size_t)i]->step())
                ;
        sim::probe("agents_inside");
        sim::probe("inner_steps", in.done);
    }
    for (int i = 0; i < p.n; i++)
        compareRuns("agents_interfere",
                    (std::string("agent ") + std::to_string(i) + " of " +
                     std::to_string(p.n) + " alone and " + how)
                        .c_str(),
                    want[(size_t)i], all[(size_t)i]->out);
    for (size_t i = 0; i < alone.size(); i++) {
        // nothing happens to an agent that is not used
        alone[i]->state("kept");
        all[i]->state("kept");
        auto &a = alone[i]->out.parts, &b = all[i]->out.parts;
        if (a[a.size() - 2].second != b[b.size() - 2].second)
            sim::violation("agents_interfere",
                           "agent %zu changed while others were trained", i);
    }
    if (kept)
        sim::probe("kept_agents");
    if (shared)
        sim::probe("shared_instructions");
    int live = 0;
    all.clear();
    alone.clear();
    live = g_liveEnvs;
    if (live)
        sim::violation("environment_leak", "%d environments remain", live);
}
