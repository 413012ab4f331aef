// P20: a file of execution statistics is complete and true, or its writing
// reports a failure.
#include "x_train.h"
#include <json.h>
#include <sstream>
#include <thread>
#include "tpg/instrumented/executionStats.h"
#include "tpg/instrumented/tpgExecutionEngineInstrumented.h"
#include "tpg/instrumented/tpgInstrumentedFactory.h"
#include "tpg/instrumented/tpgVertexInstrumentation.h"
using namespace H;

namespace {
    typedef std::vector<const TPG::TPGVertex*> Path;
    size_t analyses, written, failed, empties, tracesSeen, generations, crashes,
        changed;

    struct Tot
    {
        uint64_t inf = 0, teams = 0, programs = 0, lines = 0;
        std::map<size_t, uint64_t> instr;
    };
    void count(Tot& n, const Path& p)
    {
        n.inf++;
        n.teams += p.size() - 1;
        for (auto v : p)
            if (dynamic_cast<const TPG::TPGTeam*>(v))
                for (auto e : v->getOutgoingEdges()) {
                    auto& pr = e->getProgram();
                    n.programs++;
                    n.lines += pr.getNbLines();
                    for (size_t i = 0; i < pr.getNbLines(); i++)
                        n.instr[pr.getLine(i).getInstructionIndex()]++;
                }
    }
    // What one file must say
    struct Model
    {
        Tot all;                 // since the last reset of the counters
        std::vector<Path> paths; // since the last clearing of the engine
        std::map<const TPG::TPGVertex*, size_t> index;
    };

    typedef std::map<std::string, double> Flat;
    void flatten(const Json::Value& v, const std::string& at, Flat& f)
    {
        if (v.isObject())
            for (auto& k : v.getMemberNames())
                flatten(v[k], at + "/" + k, f);
        else if (v.isArray())
            for (Json::ArrayIndex i = 0; i < v.size(); i++)
                flatten(v[i], at + "/" + std::to_string(i), f);
        else if (v.isNull())
            f[at] = std::numeric_limits<double>::quiet_NaN();
        else if (v.isNumeric())
            f[at] = v.asDouble();
        else
            sim::violation("content", "%s is neither a number nor a list",
                           at.c_str());
    }
    Flat expected(const Model& m)
    {
        Flat f;
        const std::string E = "/ExecutionStats/";
        double n = (double)m.all.inf;
        f[E + "avgEvaluatedTeams"] = (double)m.all.teams / n;
        f[E + "avgEvaluatedPrograms"] = (double)m.all.programs / n;
        f[E + "avgExecutedLines"] = (double)m.all.lines / n;
        for (auto& p : m.all.instr)
            f[E + "avgNbExecutionPerInstruction/" + std::to_string(p.first)] =
                (double)p.second / n;
        for (size_t i = 0; i < m.paths.size(); i++) {
            Tot t;
            count(t, m.paths[i]);
            auto str = [](uint64_t x) { return std::to_string(x); };
            f[E + "distributionEvaluatedTeams/" + str(t.teams)]++;
            f[E + "distributionEvaluatedPrograms/" + str(t.programs)]++;
            f[E + "distributionExecutedLines/" + str(t.lines)]++;
            std::string T = "/TracesStats/" + str(i) + "/";
            for (auto& p : t.instr) {
                f[E + "distributionNbExecutionPerInstruction/" + str(p.first) +
                  "/" + str(p.second)]++;
                f[T + "nbExecutionPerInstruction/" + str(p.first)] =
                    (double)p.second;
            }
            f[T + "nbEvaluatedTeams"] = (double)t.teams;
            f[T + "nbEvaluatedPrograms"] = (double)t.programs;
            f[T + "nbExecutedLines"] = (double)t.lines;
            for (size_t j = 0; j < m.paths[i].size(); j++) {
                size_t v = m.index.at(m.paths[i][j]);
                f[E + "distributionUsedVertices/" + str(v)]++;
                f[T + "trace/" + str(j)] = (double)v;
            }
        }
        return f;
    }
    bool parse(const std::string& text, Json::Value& v)
    {
        Json::CharReaderBuilder b;
        b["failIfExtra"] = true;
        std::istringstream is(text);
        std::string err;
        return Json::parseFromStream(b, is, &v, &err);
    }
    void checkFile(const std::string& path, const Model& m, const char* when)
    {
        Json::Value v;
        std::string text = sim::fsRead(path);
        if (!parse(text, v))
            sim::violation("incomplete", "%s, written %s, is not a JSON file",
                           path.c_str(), when);
        Flat got, want = expected(m);
        flatten(v, "", got);
        for (auto& p : want) {
            if (!got.count(p.first))
                sim::violation("content", "%s is missing in a file written %s",
                               p.first.c_str(), when);
            double a = p.second, b = got[p.first];
            bool same = std::isnan(a)
                            ? std::isnan(b)
                            : std::fabs(a - b) <= 1e-5 * std::max(1., std::fabs(a));
            if (!same)
                sim::violation("content",
                               "%s is %.9g instead of %.9g in a file written %s",
                               p.first.c_str(), b, a, when);
        }
        for (auto& p : got)
            if (!want.count(p.first))
                sim::violation("content",
                               "%s should not be in a file written %s",
                               p.first.c_str(), when);
    }
    bool ioMode(bool on)
    {
        bool was = sim::faults().io;
        sim::faults().io = on;
        return was;
    }
} // namespace

PROP(P20)
{
    analyses = written = failed = empties = tracesSeen = generations = crashes =
        changed = 0;
    Cfg c = drawCfg(1 << AK_LEARN | 1 << AK_PAR | 1 << AK_CLASS | 1 << AK_ADV,
                    3);
    c.instrumented = true;
    if (flip("mostlyTeams", 40))
        c.p.mutation.tpg.pEdgeDestinationIsAction = 0.0;
    c.env.copyable = true;
    drawHeap();
    drawSchedule();
    sim::note("agentName", agentName(c.agent));
    World w(c);
    auto& g = w.graph();
    Ref ref(*w.is, c.p.nbRegisters, c.p.nbProgramConstant);
    TPG::TPGInstrumentedFactory fac;
    w.agent->init(c.seed);
    {
        sim::Faults& f = sim::faults();
        static const double pw[] = {0.01, 0.05, 0.3};
        f.pShortWrite = flip("shortWrite", 30) ? pickOf("pShortWrite", pw) : 0;
        f.pEintr = flip("eintr", 30) ? pickOf("pEintr", pw) : 0;
        f.pWriteErr = flip("writeErr", 40) ? pickOf("pWriteErr", pw) : 0;
        f.pOpenErr = flip("openErr", 30) ? pickOf("pOpenErr", pw) : 0;
        f.pCloseErr = flip("closeErr", 20) ? pickOf("pCloseErr", pw) : 0;
    }
    ioMode(false);
    bool faults = flip("faults", 60), full = flip("fullDisk", 30);
    bool neverReset = flip("neverReset", 25);

    int ne = (int)knob("engines", 1, 3);
    struct Eng
    {
        std::unique_ptr<Learn::LearningEnvironment> own;
        Learn::LearningEnvironment* le;
        std::unique_ptr<Environment> env;
        std::unique_ptr<TPG::TPGExecutionEngine> tee;
        TPG::TPGExecutionEngineInstrumented* ti;
        std::vector<Path> paths;
    };
    std::vector<Eng> eng((size_t)ne);
    for (int k = 0; k < ne; k++) {
        Eng& e = eng[(size_t)k];
        e.own.reset(w.env->clone());
        e.le = e.own.get();
        e.env = std::make_unique<Environment>(
            w.is->set, e.le->getDataSources(), c.p.nbRegisters,
            c.p.nbProgramConstant);
        e.tee = g.getFactory().createTPGExecutionEngine(*e.env, nullptr);
        e.ti = &dynamic_cast<TPG::TPGExecutionEngineInstrumented&>(*e.tee);
    }
    Tot all;
    int gen = 0;
    sim::Rng& r = sim::workRng();
    std::vector<TPG::ExecutionStats> kept(2);
    auto newStart = [&] {
        fac.resetTPGGraphCounters(g);
        all = Tot();
        for (auto& e : eng) {
            e.ti->clearTraceHistory();
            e.paths.clear();
        }
    };
    auto change = [&] {
        // the graph becomes another one: what was measured is forgotten
        for (auto& e : eng) {
            e.ti->clearTraceHistory();
            e.paths.clear();
        }
        sim::reseed(0, r.below(1000000) + 1);
        w.agent->trainOneGeneration((uint64_t)gen++);
        generations++;
        if (g.getNbRootVertices() == 0)
            sim::skip("no root left");
        newStart();
    };
    auto infer = [&](Eng& e, int k) {
        auto roots = g.getRootVertices();
        auto root = roots[r.below(roots.size())];
        e.le->reset((size_t)r.below(10000) + (size_t)k,
                    Learn::LearningMode::TESTING, 0, 0);
        auto got = e.tee->executeFromRoot(*root);
        sim::OracleScope o;
        auto want = ref.path(root, *coreOf(e.le));
        if (got != want)
            sim::violation("path", "the engine follows another path");
        e.paths.push_back(want);
        count(all, want);
    };
    auto modelOf = [&](Eng& e) {
        Model m;
        m.all = all;
        m.paths = e.paths;
        size_t i = 0;
        for (auto v : g.getVertices())
            m.index[v] = i++;
        return m;
    };
    if (flip("trainFirst", 60))
        for (int n = (int)knob("generations", 1, 3); n; n--)
            change();
    newStart();

    // never analysed: an empty statistic
    if (flip("neverAnalysed", 20)) {
        TPG::ExecutionStats none;
        none.writeStatsToJson("/simfs/none.json");
        sim::OracleScope o;
        Json::Value v;
        if (!parse(sim::fsRead("/simfs/none.json"), v))
            sim::violation("incomplete",
                           "statistics without analysis are not a JSON file");
    }

    int rounds = (int)knob("rounds", 1, 5);
    for (int round = 0; round < rounds; round++) {
        switch (r.below(8)) {
        case 0:
            change();
            changed++;
            break;
        case 1:
            if (!neverReset)
                newStart();
            break;
        case 2: {
            Eng& e = eng[r.below((uint64_t)ne)];
            e.ti->clearTraceHistory();
            e.paths.clear();
            break;
        }
        default:
            break;
        }
        int n = (int)r.below(10);
        if (n == 9)
            n = 40;
        for (int i = 0; i < n; i++) {
            int k = (int)r.below((uint64_t)ne);
            infer(eng[(size_t)k], k);
        }
        Eng& e = eng[r.below((uint64_t)ne)];
        TPG::ExecutionStats& st = kept[r.below(2)];
        TPG::ExecutionStats fresh;
        st.analyzeExecution(*e.ti, &g);
        fresh.analyzeExecution(*e.ti, &g);
        analyses++;
        empties += all.inf == 0;
        tracesSeen += e.paths.size();
        // later inferences do not change what was analysed
        Model m;
        {
            sim::OracleScope o;
            m = modelOf(e);
        }
        if (r.below(3) == 0)
            for (int i = 0; i < 3; i++)
                infer(eng[0], 0);
        std::string path = "/simfs/s" + std::to_string(r.below(2)) + ".json";
        bool noIndent = r.below(2);
        fresh.writeStatsToJson("/simfs/fresh.json", noIndent);
        std::string clean;
        {
            sim::OracleScope o;
            checkFile("/simfs/fresh.json", m, "by a new object");
            clean = sim::fsRead("/simfs/fresh.json");
        }
        int tries = faults ? 1 + (int)r.below(4) : 1;
        static const int64_t cap[] = {0, 30, 500, 2000, 8000, 8191, 20000};
        for (int i = 0; i < tries; i++) {
            bool ok = false;
            ioMode(faults);
            if (faults && full)
                sim::faults().diskCapacity = (int64_t)sim::fsBytesWritten() +
                                             cap[r.below(7)] +
                                             (int64_t)r.below(300);
            if (faults && full && r.below(4) == 0 && !clean.empty())
                sim::faults().diskCapacity =
                    (int64_t)sim::fsBytesWritten() + (int64_t)clean.size() - 1;
            try {
                st.writeStatsToJson(path.c_str(), noIndent);
                ok = true;
                written++;
            }
            catch (std::exception& x) {
                failed++;
                sim::event("write failed: %s", x.what());
            }
            ioMode(false);
            sim::faults().diskCapacity = -1;
            sim::OracleScope o;
            if (sim::fsOpenHandles())
                sim::violation("open_files", "%d files are still open",
                               sim::fsOpenHandles());
            if (!ok)
                continue;
            if (sim::fsRead(path) != clean) {
                checkFile(path, m, "without an error");
                sim::violation("content",
                               "the files of a used and of a new object differ");
            }
        }
        // several writers at the same time
        if (r.below(4) == 0) {
            std::thread t([&] { st.writeStatsToJson("/simfs/t1.json", noIndent); });
            st.writeStatsToJson("/simfs/t2.json", noIndent);
            t.join();
            sim::OracleScope o;
            if (sim::fsRead("/simfs/t1.json") != clean ||
                sim::fsRead("/simfs/t2.json") != clean)
                sim::violation("content", "concurrent writings differ");
        }
        // usable again
        try {
            st.writeStatsToJson(path.c_str(), !noIndent);
        }
        catch (std::exception& x) {
            sim::violation("not_usable",
                           "writing fails after the faults stopped: %s",
                           x.what());
        }
        sim::OracleScope o;
        checkFile(path, m, "after the faults");
        if (noIndent && clean.find('\n') != std::string::npos)
            sim::violation("content", "a file without indentation has lines");
    }
    sim::probe("analyses", analyses);
    sim::probe("written", written);
    sim::probe("write_failed", failed);
    sim::probe("analysis_of_no_inference", empties);
    sim::probe("traces", tracesSeen);
    sim::probe("graph_changed_between_analyses", changed);
}
