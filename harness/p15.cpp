// P15: parameter files round-trip, and bad files never load silently.
#include "h.h"
#include "file/parametersParser.h"
#include <json.h>
using namespace H;
typedef Learn::LearningParameters LP;

namespace {
    size_t writes, writesFailed, loads, refused, ignored, cuts, broken, partial,
        trainings, wrongTypes, overwrites;

    // One accessor per parameter.
    enum Type
    {
        T_SIZE,
        T_U64,
        T_INT,
        T_DBL,
        T_BOOL
    };
    struct Field
    {
        const char* name;
        int group; // 0 root, 1 mutation.tpg, 2 mutation.prog
        int type;
        void* (*at)(LP&);
    };
#define F0(t, f)                                                               \
    {                                                                          \
        #f, 0, t, [](LP& p) -> void* { return &p.f; }                          \
    }
#define F1(t, f)                                                               \
    {                                                                          \
        #f, 1, t, [](LP& p) -> void* { return &p.mutation.tpg.f; }             \
    }
#define F2(t, f)                                                               \
    {                                                                          \
        #f, 2, t, [](LP& p) -> void* { return &p.mutation.prog.f; }            \
    }
    const Field fields[] = {
        F0(T_SIZE, archiveSize),
        F0(T_DBL, archivingProbability),
        F0(T_U64, nbIterationsPerPolicyEvaluation),
        F0(T_U64, maxNbActionsPerEval),
        F0(T_DBL, ratioDeletedRoots),
        F0(T_U64, nbGenerations),
        F0(T_SIZE, maxNbEvaluationPerPolicy),
        F0(T_SIZE, nbIterationsPerJob),
        F0(T_SIZE, nbRegisters),
        F0(T_SIZE, nbProgramConstant),
        F0(T_SIZE, nbThreads),
        F0(T_BOOL, doValidation),
        F1(T_SIZE, nbActions),
        F1(T_SIZE, nbRoots),
        F1(T_SIZE, maxInitOutgoingEdges),
        F1(T_SIZE, maxOutgoingEdges),
        F1(T_DBL, pEdgeDeletion),
        F1(T_DBL, pEdgeAddition),
        F1(T_DBL, pProgramMutation),
        F1(T_BOOL, forceProgramBehaviorChangeOnMutation),
        F1(T_DBL, pEdgeDestinationChange),
        F1(T_DBL, pEdgeDestinationIsAction),
        F2(T_SIZE, maxProgramSize),
        F2(T_DBL, pDelete),
        F2(T_DBL, pAdd),
        F2(T_DBL, pMutate),
        F2(T_DBL, pSwap),
        F2(T_DBL, pConstantMutation),
        F2(T_INT, minConstValue),
        F2(T_INT, maxConstValue),
    };
    const size_t NF = sizeof fields / sizeof *fields;
    static_assert(sizeof(size_t) == 8, "64 bit sizes");

    std::string text(const Field& f, const LP& cp)
    {
        LP& p = const_cast<LP&>(cp);
        switch (f.type) {
        case T_SIZE:
        case T_U64:
            return std::to_string(*(uint64_t*)f.at(p));
        case T_INT:
            return std::to_string(*(int32_t*)f.at(p));
        case T_BOOL:
            return *(bool*)f.at(p) ? "true" : "false";
        default: {
            char b[40];
            snprintf(b, sizeof b, "%.17g", *(double*)f.at(p));
            return b;
        }
        }
    }
    // What the file keeps: six significant digits of a probability.
    bool same(const Field& f, const LP& ca, const LP& cb)
    {
        LP &a = const_cast<LP&>(ca), &b = const_cast<LP&>(cb);
        if (f.type != T_DBL)
            return text(f, a) == text(f, b);
        double x = *(double*)f.at(a), y = *(double*)f.at(b);
        if (x == y)
            return true;
        return std::fabs(x - y) <= 5.1e-6 * std::max(std::fabs(x), std::fabs(y));
    }
    bool exactlySame(const LP& a, const LP& b, const Field** which = nullptr)
    {
        for (auto& f : fields)
            if (text(f, a) != text(f, b)) {
                if (which)
                    *which = &f;
                return false;
            }
        return true;
    }
    void randomField(const Field& f, LP& p)
    {
        auto& r = sim::workRng();
        switch (f.type) {
        case T_SIZE:
        case T_U64: {
            uint64_t v;
            switch (r.below(6)) {
            case 0:
                v = r.below(3);
                break;
            case 1:
                v = (1ull << (20 + r.below(44))) - r.below(2);
                break;
            case 2:
                v = r.below(5) ? UINT32_MAX + r.below(3) : UINT64_MAX;
                break;
            default:
                v = r.below(2000);
            }
            *(uint64_t*)f.at(p) = v;
            break;
        }
        case T_INT: {
            static const int32_t v[] = {INT32_MIN, INT32_MAX, -1, 0, 1};
            *(int32_t*)f.at(p) = r.below(4) == 0
                                     ? v[r.below(5)]
                                     : (int32_t)r.below(2001) - 1000;
            break;
        }
        case T_BOOL:
            *(bool*)f.at(p) = r.below(2);
            break;
        default: {
            double v;
            switch (r.below(6)) {
            case 0:
                v = (double)r.below(2);
                break;
            case 1:
                v = r.unit();
                break;
            case 2:
                v = r.unit() * 1e-7;
                break;
            default:
                v = (double)r.below(1000001) / 1e6;
            }
            *(double*)f.at(p) = v;
        }
        }
    }
    LP randomParams()
    {
        LP p;
        for (auto& f : fields)
            if (sim::workRng().below(8))
                randomField(f, p);
        return p;
    }
    bool ioMode(bool on)
    {
        bool was = sim::faults().io;
        sim::faults().io = on;
        return was;
    }
    void drawFaults()
    {
        sim::Faults& f = sim::faults();
        static const double pw[] = {0.05, 0.2, 0.5};
        f.pShortWrite = flip("shortWrite", 30) ? pickOf("pShortWrite", pw) : 0;
        f.pShortRead = flip("shortRead", 40) ? pickOf("pShortRead", pw) : 0;
        f.pEintr = flip("eintr", 30) ? pickOf("pEintr", pw) : 0;
        f.pWriteErr = flip("writeErr", 30) ? pickOf("pWriteErr", pw) : 0;
        f.pReadErr = flip("readErr", 40) ? pickOf("pReadErr", pw) : 0;
        f.pOpenErr = flip("openErr", 30) ? pickOf("pOpenErr", pw) : 0;
        f.pCloseErr = flip("closeErr", 20) ? pickOf("pCloseErr", pw) : 0;
        f.diskCapacity = -1;
    }

    // loads `path`: true when no exception was thrown
    bool load(const char* path, LP& p)
    {
        loads++;
        try {
            File::ParametersParser::loadParametersFromJson(path, p);
        }
        catch (std::exception& e) {
            refused++;
            sim::event("load failed: %s", e.what());
            return false;
        }
        return true;
    }
    // A file that may be bad: all or nothing.
    void allOrNothing(const char* path, const LP& want, const char* what,
                      bool mustFail = false)
    {
        LP before = randomParams();
        LP p = before;
        bool ok = load(path, p);
        if (exactlySame(p, before)) {
            ignored++;
            return;
        }
        if (!ok || mustFail) {
            const Field* f = nullptr;
            exactlySame(p, before, &f);
            sim::violation("bad_file_changed",
                           "%s%s but %s went from %s to %s", what,
                           ok ? " is loaded" : " is refused", f->name,
                           text(*f, before).c_str(), text(*f, p).c_str());
        }
        for (auto& f : fields)
            if (!same(f, p, want))
                sim::violation("partial_load",
                               "%s is loaded, but %s is %s instead of %s",
                               what, f.name, text(f, p).c_str(),
                               text(f, want).c_str());
    }
    void mustLoad(const char* path, const LP& want, const char* what)
    {
        LP p = randomParams();
        loads++;
        try {
            File::ParametersParser::loadParametersFromJson(path, p);
        }
        catch (std::exception& e) {
            sim::violation("refused", "%s cannot be loaded: %s", what, e.what());
        }
        for (auto& f : fields)
            if (!same(f, p, want))
                sim::violation("round_trip",
                               "%s: %s is %s after loading, and %s was written",
                               what, f.name, text(f, p).c_str(),
                               text(f, want).c_str());
    }
    // Positions of the characters that hold the structure of the document.
    std::vector<size_t> structure(const std::string& t)
    {
        std::vector<size_t> r;
        bool str = false;
        for (size_t i = 0; i < t.size(); i++) {
            if (str) {
                if (t[i] == '"')
                    str = false;
                continue;
            }
            if (t[i] == '/' && i + 1 < t.size() && t[i + 1] == '/') {
                while (i < t.size() && t[i] != '\n')
                    i++;
                continue;
            }
            if (t[i] == '"')
                str = true;
            else if (strchr("{}:", t[i]))
                r.push_back(i);
        }
        return r;
    }
    void badFiles(const char* path, const LP& want)
    {
        std::string t = sim::fsRead(path);
        auto pos = structure(t);
        size_t end = t.find_last_of('}');
        int n = (int)knob("nbCuts", 4, 40);
        char what[100];
        for (int i = 0; i < n; i++) {
            size_t at;
            auto& r = sim::workRng();
            switch (r.below(4)) {
            case 0: // around the structure
                at = pos[r.below(pos.size())] + r.below(3);
                break;
            case 1: // the end
                at = t.size() - r.below(std::min<size_t>(40, t.size()));
                break;
            default:
                at = r.below(t.size());
            }
            if (at >= t.size())
                continue;
            sim::fsWrite("/simfs/cut.json", t.substr(0, at));
            cuts++;
            snprintf(what, sizeof what, "a file of %zu bytes cut at byte %zu",
                     t.size(), at);
            allOrNothing("/simfs/cut.json", want, what, at <= end);
        }
        n = (int)knob("nbBroken", 1, 10);
        for (int i = 0; i < n; i++) {
            std::string b = t;
            size_t at = pos[sim::workRng().below(pos.size())];
            if (sim::workRng().below(3) == 0)
                b.insert(at, 1, b[at] == ':' ? ':' : '}');
            else
                b.erase(at, 1);
            // `}` before the last `}` closes the document early: what follows
            // is ignored, so keep only what cannot be read as a document
            if (b.size() > t.size() && t[at] != ':')
                continue;
            sim::fsWrite("/simfs/bad.json", b);
            broken++;
            snprintf(what, sizeof what,
                     "a file that is not JSON (character %zu %s)", at,
                     b.size() > t.size() ? "doubled" : "removed");
            allOrNothing("/simfs/bad.json", want, what, true);
        }
        static const char* const odd[] = {"", " ", "{", "}", "[", "\"", "//",
                                          "nope", "{\"archiveSize\" : }",
                                          "{\"archiveSize\" : 3 \"a\" : 4}",
                                          "{\"nbRegisters\" : 3, ",
                                          "\xff\xfe{", "5", "[1, 2]",
                                          "\"archiveSize\"", "{\"a\" : 1e}"};
        for (auto o : odd) {
            if (sim::workRng().below(3))
                continue;
            sim::fsWrite("/simfs/bad.json", o);
            broken++;
            snprintf(what, sizeof what, "the file <%s>", o);
            allOrNothing("/simfs/bad.json", want, what, true);
        }
        // deeper than the reader accepts
        if (flip("deep", 10)) {
            std::string d = "{\"archiveSize\" : 3, \"a\" : ";
            for (int i = 0; i < 1500; i++)
                d += "[";
            sim::fsWrite("/simfs/bad.json", d);
            allOrNothing("/simfs/bad.json", want, "a file nested 1500 times",
                         true);
        }
    }
    // Files written by hand: some keys only, any order, unknown keys, and
    // possibly one value the parameter cannot take.
    void byHand(const LP& v)
    {
        auto& r = sim::workRng();
        const char* wrong = nullptr;
        int wrongAt = -1;
        std::string part[3];
        bool in[NF] = {};
        std::vector<size_t> order(NF);
        for (size_t i = 0; i < NF; i++)
            order[i] = i;
        for (size_t i = NF - 1; i > 0; i--)
            std::swap(order[i], order[r.below(i + 1)]);
        size_t keep = r.below(NF + 1);
        bool withWrong = r.below(2);
        for (size_t k = 0; k < keep; k++) {
            const Field& f = fields[order[k]];
            std::string val = text(f, v);
            if (withWrong && wrongAt < 0 &&
                (k + 1 == keep || r.below(keep) == 0)) {
                wrongAt = (int)order[k];
                static const char* const bad[] = {"\"abc\"", "{}", "[]",
                                                  "-1e300"};
                static const char* const badSize[] = {"-1", "\"7\"", "1e40",
                                                      "{}"};
                static const char* const badBool[] = {"\"true\"", "{}", "[]",
                                                      "\"\""};
                wrong = f.type == T_BOOL ? badBool[r.below(4)]
                        : f.type == T_SIZE || f.type == T_U64
                            ? badSize[r.below(4)]
                            : bad[r.below(f.type == T_DBL ? 3 : 4)];
                val = wrong;
                wrongTypes++;
            }
            else
                in[order[k]] = true;
            std::string& s = part[f.group];
            if (!s.empty())
                s += ",";
            if (r.below(4) == 0)
                s += "\n// \"nbRegisters\" : 1,\n";
            s += std::string(r.below(2) ? "\n " : "") + "\"" + f.name + "\" : " +
                 val;
            if (r.below(10) == 0)
                s += ", \"unknown" + std::to_string(k) + "\" : 5";
        }
        std::string t = "{";
        std::string m;
        if (!part[1].empty() || r.below(4) == 0)
            m += "\"tpg\" : {" + part[1] + "}";
        if (!part[2].empty() || r.below(4) == 0)
            m += std::string(m.empty() ? "" : ", ") + "\"prog\" : {" + part[2] +
                 "}";
        if (!m.empty())
            m = "\"mutation\" : {" + m + "}";
        bool first = r.below(2);
        if (first)
            t += m + (!m.empty() && !part[0].empty() ? ", " : "");
        t += part[0];
        if (!first)
            t += (!m.empty() && !part[0].empty() ? ", " : "") + m;
        t += "}";
        sim::fsWrite("/simfs/hand.json", t);
        LP before = randomParams();
        LP p = before;
        bool ok = load("/simfs/hand.json", p);
        if (!ok) {
            if (wrongAt < 0)
                sim::violation("refused", "a valid file is refused: %s",
                               t.c_str());
            const Field* f;
            if (!exactlySame(p, before, &f))
                sim::violation("bad_file_changed",
                               "a file with %s for %s is refused, but %s went "
                               "from %s to %s",
                               wrong, fields[wrongAt].name, f->name,
                               text(*f, before).c_str(), text(*f, p).c_str());
            return;
        }
        partial++;
        for (size_t i = 0; i < NF; i++) {
            if ((int)i == wrongAt)
                continue; // any value is acceptable
            if (in[i] ? !same(fields[i], p, v)
                      : text(fields[i], p) != text(fields[i], before))
                sim::violation(in[i] ? "wrong_value" : "absent_key",
                               "%s is %s after loading; it was %s and the file "
                               "%s it%s%s",
                               fields[i].name, text(fields[i], p).c_str(),
                               text(fields[i], before).c_str(),
                               in[i] ? "gives" : "does not give",
                               in[i] ? " as " : "",
                               in[i] ? text(fields[i], v).c_str() : "");
        }
    }
    void once(int no)
    {
        std::string tag = "_" + std::to_string(no);
        auto flip = [&](const char* n, int pct) {
            return H::flip((n + tag).c_str(), pct);
        };
        auto knob = [&](const char* n, int64_t lo, int64_t hi) {
            return H::knob((n + tag).c_str(), lo, hi);
        };
        std::string path = "/simfs/p" + std::to_string(no % 2) + ".json";
        overwrites += sim::fsExists(path);
        LP v = randomParams();
        bool full = flip("diskFull", 20), done = false;
        static const int64_t cap[] = {0, 30, 500, 2000, 4000, 5000};
        ioMode(flip("faults", 70));
        int tries = (int)knob("tries", 1, 4);
        for (int i = 0; i < tries && !done; i++) {
            if (full && sim::faults().io)
                sim::faults().diskCapacity =
                    (int64_t)sim::fsBytesWritten() + cap[knob("capacity", 0, 5)];
            writes++;
            try {
                File::ParametersParser::writeParametersToJson(path.c_str(), v);
                done = true;
            }
            catch (std::exception& e) {
                writesFailed++;
                sim::event("write failed: %s", e.what());
            }
        }
        bool io = ioMode(false);
        sim::faults().diskCapacity = -1;
        File::ParametersParser::writeParametersToJson("/simfs/clean.json", v);
        std::string clean = sim::fsRead("/simfs/clean.json");
        if (done) {
            if (sim::fsRead(path) != clean)
                sim::violation("incomplete",
                               "writing %s reported no error, but the file "
                               "differs from one written without faults: %s",
                               path.c_str(),
                               firstDiff(clean, sim::fsRead(path)).c_str());
            mustLoad(path.c_str(), v, "a complete file");
        }
        else if (sim::fsExists(path) && sim::fsRead(path) != clean) {
            // whatever the failed write left; possibly another complete file
            LP any = v;
            LP p = randomParams(), before = p;
            load(path.c_str(), p);
            (void)any;
            (void)before;
        }
        // reading with faults
        if (done && io) {
            ioMode(true);
            int n = (int)knob("reads", 1, 4);
            for (int i = 0; i < n; i++)
                allOrNothing(path.c_str(), v, "a file read under faults");
            ioMode(false);
        }
        // power failure during a later write to the same file
        if (flip("crash", 30)) {
            sim::fsSyncAll();
            LP v2 = randomParams();
            try {
                File::ParametersParser::writeParametersToJson(path.c_str(), v2);
            }
            catch (std::exception& e) {
            }
            ioMode(true);
            sim::fsCrash();
            ioMode(false);
            if (sim::fsExists(path))
                allOrNothing(path.c_str(), v2, "a file after a power failure");
        }
        // works once the faults have stopped
        try {
            File::ParametersParser::writeParametersToJson(path.c_str(), v);
        }
        catch (std::exception& e) {
            sim::violation("not_usable",
                           "writing fails after the faults stopped: %s",
                           e.what());
        }
        mustLoad(path.c_str(), v, "a file written after the faults");
        badFiles(path.c_str(), v);
        int n = (int)knob("byHand", 0, 6);
        for (int i = 0; i < n; i++)
            byHand(randomParams());
        if (sim::fsOpenHandles())
            sim::violation("open_files", "%d files are still open",
                           sim::fsOpenHandles());
    }
    // A training with reloaded parameters is the same training.
    void train()
    {
        trainings++;
        Cfg c = drawCfg(1 << AK_LEARN | 1 << AK_PAR | 1 << AK_CLASS |
                            1 << AK_CLASS_SEQ | 1 << AK_ADV,
                        2);
        setParallelKnobs(c);
        for (auto& f : fields)
            if (f.type == T_DBL) {
                double& d = *(double*)f.at(c.p);
                d = std::round(d * 1e5) / 1e5;
            }
        File::ParametersParser::writeParametersToJson("/simfs/t.json", c.p);
        Cfg c2 = c;
        c2.p = LP();
        File::ParametersParser::loadParametersFromJson("/simfs/t.json", c2.p);
        RunDump a, b;
        {
            World w(c);
            trainAndDump(w, a);
        }
        drawSchedule();
        {
            World w(c2);
            trainAndDump(w, b);
        }
        compareRuns("training_differs", "training with reloaded parameters", a,
                    b);
    }
    // The library says what it ignores on these streams.
    struct Quiet
    {
        struct NullBuf : std::streambuf
        {
            int overflow(int c) override
            {
                return c == EOF ? 0 : c;
            }
        } nb;
        std::streambuf *o, *e;
        Quiet() : o(std::cout.rdbuf(&nb)), e(std::cerr.rdbuf(&nb))
        {
        }
        ~Quiet()
        {
            std::cout.rdbuf(o);
            std::cerr.rdbuf(e);
        }
    };
} // namespace

PROP(P15)
{
    sim::setNbProcs((int)knob("procs", 1, 8));
    drawHeap();
    sim::raceDetection(false);
    quietSchedule();
    drawFaults();
    {
        Quiet q;
        int n = (int)knob("files", 1, 4);
        for (int i = 0; i < n; i++)
            once(i);
        if (flip("train", 15))
            train();
    }
    sim::probe("writes", writes);
    sim::probe("writes_failed", writesFailed);
    sim::probe("overwrites", overwrites);
    sim::probe("loads", loads);
    sim::probe("loads_refused", refused);
    sim::probe("files_without_effect", ignored);
    sim::probe("cuts", cuts);
    sim::probe("not_json", broken);
    sim::probe("partial_files", partial);
    sim::probe("wrong_values", wrongTypes);
    if (trainings)
        sim::probe("trainings", trainings);
}
