// P17: generated C code is complete, compiles and decides like the graph.
#include "h.h"
#include <cfloat>
#include "x_train.h"
#include "codeGen/tpgGenerationEngineFactory.h"
#include "codeGen/programGenerationEngine.h"
#include "data/array2DWrapper.h"
#include "data/pointerWrapper.h"
#include "instructions/addPrimitiveType.h"
#include "instructions/multByConstant.h"
#include "mutator/tpgMutator.h"
#include "program/programExecutionEngine.h"
#include "tpg/tpgExecutionEngine.h"
using namespace H;
using Instructions::LambdaInstruction;

namespace {
    size_t generations, failed, compiled, decisions, bids, pruned, actionRoots,
        lostEnds, unprintable, programsRun, noCompiler, sharedPrograms,
        twins, secondWorlds;

    // ---------------------------------------------------------------- data
    // One source of data, whose raw values are known.
    struct Src
    {
        std::string type;
        size_t n = 0, elem = 0;
        std::unique_ptr<Data::DataHandler> h;
        std::function<void(size_t, double)> set;
        std::vector<std::string> recorded; // raw bytes of each data set
        std::function<const void*()> raw;
    };
    template <class T> const char* tname();
    template <> const char* tname<double>()
    {
        return "double";
    }
    template <> const char* tname<int>()
    {
        return "int";
    }
    template <> const char* tname<float>()
    {
        return "float";
    }
    template <> const char* tname<unsigned char>()
    {
        return "unsigned char";
    }
    template <class T> T conv(double v)
    {
        if (std::is_floating_point<T>::value)
            return (T)v;
        if (!(std::fabs(v) < 100000))
            return (T)(v > 0 ? 77 : 3);
        return (T)(int)v;
    }
    template <class T> struct Store
    {
        std::vector<T> v;
        explicit Store(size_t n) : v(n)
        {
        }
    };
    template <class T, class Handler> std::unique_ptr<Src> owned(Handler* h, size_t n)
    {
        auto s = std::make_unique<Src>();
        s->type = tname<T>();
        s->n = n;
        s->elem = sizeof(T);
        auto copy = std::make_shared<std::vector<T>>(n);
        s->h.reset(h);
        s->set = [h, copy](size_t i, double v) {
            (*copy)[i] = conv<T>(v);
            h->setDataAt(typeid(T), i, conv<T>(v));
        };
        s->raw = [copy] { return (const void*)copy->data(); };
        return s;
    }
    template <class T, class Make> std::unique_ptr<Src> wrapped(size_t n, Make make)
    {
        auto s = std::make_unique<Src>();
        s->type = tname<T>();
        s->n = n;
        s->elem = sizeof(T);
        auto data = std::make_shared<std::vector<T>>(n);
        Data::ArrayWrapper<T>* h = make(data.get());
        s->h.reset(h);
        s->set = [h, data](size_t i, double v) {
            (*data)[i] = conv<T>(v);
            h->invalidateCachedHash();
        };
        s->raw = [data] { return (const void*)data->data(); };
        return s;
    }
    std::unique_ptr<Src> makeSource(int kind)
    {
        auto& r = sim::workRng();
        size_t n = 1 + r.below(6), w = 2 + r.below(4), h = 2 + r.below(4);
        using namespace Data;
        switch (kind) {
        case 0:
            return owned<double>(new PrimitiveTypeArray<double>(n), n);
        case 1:
            return owned<int>(new PrimitiveTypeArray<int>(n), n);
        case 2:
            return owned<double>(new PrimitiveTypeArray2D<double>(w, h), w * h);
        case 3:
            return wrapped<double>(n, [n](std::vector<double>* d) {
                return new ArrayWrapper<double>(n, d);
            });
        case 4:
            return wrapped<int>(w * h, [w, h](std::vector<int>* d) {
                return new Array2DWrapper<int>(w, h, d);
            });
        case 5:
            return owned<unsigned char>(
                new PrimitiveTypeArray<unsigned char>(n), n);
        case 6:
            return owned<float>(new PrimitiveTypeArray<float>(n), n);
        case 7:
            return owned<unsigned char>(
                new PrimitiveTypeArray2D<unsigned char>(w, h), w * h);
        case 8:
            return wrapped<double>(w * h, [w, h](std::vector<double>* d) {
                return new Array2DWrapper<double>(w, h, d);
            });
        default: {
            auto s = std::make_unique<Src>();
            s->type = "double";
            s->n = 1;
            s->elem = sizeof(double);
            auto data = std::make_shared<double>(0.0);
            s->h = std::make_unique<PointerWrapper<double>>(data.get());
            s->set = [data](size_t, double v) { *data = v; };
            s->raw = [data] { return (const void*)data.get(); };
            return s;
        }
        }
    }
    double randomValue()
    {
        auto& r = sim::workRng();
        switch (r.below(12)) {
        case 0:
            return 0;
        case 1: {
            static const double odd[] = {NAN,     INFINITY, -INFINITY, -0.0,
                                         1e300,   -1e300,   5e-324,    1e-310,
                                         DBL_MAX, 0.1};
            return odd[r.below(10)];
        }
        case 2:
            return (double)(int)r.below(7) - 3;
        default:
            return r.unit() * 20 - 10;
        }
    }

    // -------------------------------------------------------- instructions
    struct Instrs
    {
        std::vector<std::unique_ptr<Instructions::Instruction>> own;
        Instructions::Set set;
        void put(Instructions::Instruction* i)
        {
            own.emplace_back(i);
            set.add(*i);
        }
    };
    double mix3(const double a[3])
    {
        return a[0] - a[1] * 2.0 + a[2] * 0.25;
    }
    void fillInstrs(Instrs& s, bool hidden)
    {
        auto want = [&](const char* n, int pct) { return flip(n, pct); };
        s.put(new LambdaInstruction<double, double>(
            [](double a, double b) { return a + b; }, "$0 = $1 + $2;"));
        s.put(new LambdaInstruction<double, double>(
            [](double a, double b) { return a * 0.5 - b; },
            "$0 = $1 * 0.5 - $2;"));
        if (want("iAdd", 50))
            s.put(new Instructions::AddPrimitiveType<double>("$0 = $1 + $2;"));
        if (want("iDiv", 40))
            s.put(new LambdaInstruction<double, double>(
                [](double a, double b) { return a / b; }, "$0 = $1 / $2;"));
        if (want("iCond", 60))
            s.put(new LambdaInstruction<double, double>(
                [](double a, double b) { return a < b ? -a : b; },
                "$0 = ($1 < $2) ? -($1) : ($2);"));
        if (want("iMath", 50)) {
            s.put(new LambdaInstruction<double>(
                [](double a) { return std::cos(a); }, "$0 = cos($1);"));
            s.put(new LambdaInstruction<double>(
                [](double a) { return a > 0 ? std::log(a) : std::exp(a); },
                "$0 = ($1 > 0) ? log($1) : exp($1);"));
        }
        if (want("iThree", 40))
            s.put(new LambdaInstruction<double, double, double>(
                [](double a, double b, double c) { return a * b + c; },
                "$0 = $1 * $2 + $3;"));
        if (want("iInt", 60))
            s.put(new LambdaInstruction<int, double>(
                [](int a, double b) { return (double)a - b; },
                "$0 = (double)$1 - $2;"));
        if (want("iTwoLines", 30))
            s.put(new LambdaInstruction<double, double>(
                [](double a, double b) {
                    double t = a;
                    if (b > 1.0)
                        t = b;
                    return t * 2.0;
                },
                "double t = $1;\n\t\tif($2 > 1.0) t = $2;\n\t\t$0 = t * 2.0;"));
        if (want("iConst", 60)) {
            s.put(new LambdaInstruction<double, Data::Constant>(
                [](double a, Data::Constant c) { return a * (double)c * 0.125; },
                "$0 = $1 * (double)$2 * 0.125;"));
            s.put(new Instructions::MultByConstant<double>());
        }
        if (want("iConstArr", 30))
            s.put(new LambdaInstruction<const Data::Constant[2]>(
                [](const Data::Constant c[2]) {
                    return (double)c[0] - (double)c[1];
                },
                "$0 = (double)$1[0] - (double)$1[1];"));
        if (want("iArr2", 60))
            s.put(new LambdaInstruction<const double[2]>(
                [](const double a[2]) { return a[0] * 2.0 - a[1]; },
                "$0 = $1[0] * 2.0 - $1[1];"));
        if (want("iArr3", 40))
            s.put(new LambdaInstruction<const double[3], double>(
                [](const double a[3], double b) { return mix3(a) + b; },
                "$0 = $1[0] - $1[1] * 2.0 + $1[2] * 0.25 + $2;"));
        if (want("iArrInt", 40))
            s.put(new LambdaInstruction<const int[2], double>(
                [](const int a[2], double b) {
                    return (double)a[0] - b * (double)a[1];
                },
                "$0 = (double)$1[0] - $2 * (double)$1[1];"));
        if (want("iWin22", 50))
            s.put(new LambdaInstruction<const double[2][2]>(
                [](const double a[2][2]) {
                    return a[0][0] - a[0][1] * 2.0 + a[1][0] * 3.0 -
                           a[1][1] * 0.5;
                },
                "$0 = $1[0][0] - $1[0][1] * 2.0 + $1[1][0] * 3.0 - $1[1][1] * "
                "0.5;"));
        if (want("iWin23", 40))
            s.put(new LambdaInstruction<const int[2][3]>(
                [](const int a[2][3]) {
                    double t = 0;
                    for (int i = 0; i < 2; i++)
                        for (int j = 0; j < 3; j++)
                            t = t * 3.0 + (double)a[i][j];
                    return t;
                },
                "double t = 0;\n\t\tfor(int i = 0; i < 2; i++) for(int j = 0; j "
                "< 3; j++) t = t * 3.0 + (double)$1[i][j];\n\t\t$0 = t;"));
        if (want("iByte", 50)) {
            s.put(new LambdaInstruction<unsigned char, double>(
                [](unsigned char a, double b) { return (double)a - b; },
                "$0 = (double)$1 - $2;"));
            s.put(new LambdaInstruction<const unsigned char[2]>(
                [](const unsigned char a[2]) {
                    return (double)a[0] - (double)a[1];
                },
                "$0 = (double)$1[0] - (double)$1[1];"));
        }
        if (want("iFloat", 50))
            s.put(new LambdaInstruction<float, double>(
                [](float a, double b) { return (double)a - b; },
                "$0 = (double)$1 - $2;"));
        if (hidden)
            s.put(new LambdaInstruction<double>(
                [](double a) { return a + 1.0; }));
    }

    // --------------------------------------------------------------- world
    struct W17
    {
        std::vector<std::unique_ptr<Src>> src;
        Instrs is;
        std::unique_ptr<Environment> env;
        std::unique_ptr<TPG::TPGGraph> g;
        size_t nbReg, nbCst;
        size_t nbSets = 0;
        void load(size_t k)
        {
            auto& r = sim::workRng();
            for (auto& s : src) {
                if (k >= s->recorded.size()) {
                    for (size_t i = 0; i < s->n; i++)
                        s->set(i, r.below(6) ? randomValue() : 1.0);
                    s->recorded.push_back(
                        std::string((const char*)s->raw(), s->n * s->elem));
                }
            }
            nbSets = k + 1;
        }
    };
    // null when the graph cannot be built (known finding K1)
    bool buildGraph(W17& w)
    {
        auto& r = sim::workRng();
        Mutator::RNG rng(r.next());
        Mutator::MutationParameters p;
        p.tpg.nbActions = 2 + r.below(4);
        p.tpg.nbRoots = 2 + r.below(8);
        p.tpg.maxInitOutgoingEdges =
            std::min<size_t>(2 + r.below(2), p.tpg.nbActions);
        p.tpg.maxOutgoingEdges = 3 + r.below(3);
        p.tpg.pEdgeDeletion = 0.3;
        p.tpg.pEdgeAddition = 0.7;
        p.tpg.pProgramMutation = r.below(2) ? 0.2 : 0.9;
        p.tpg.pEdgeDestinationChange = 0.5;
        p.tpg.pEdgeDestinationIsAction = 0.3;
        p.prog.maxProgramSize = 1 + r.below(25);
        p.prog.pDelete = 0.4;
        p.prog.pAdd = 0.6;
        p.prog.pMutate = 0.9;
        p.prog.pSwap = 0.5;
        p.prog.pConstantMutation = 0.5;
        p.prog.minConstValue = -1000;
        p.prog.maxConstValue = 1000;
        w.g = std::make_unique<TPG::TPGGraph>(*w.env);
        TPG::TPGGraph& g = *w.g;
        int shape = (int)knob("shape", 0, 9);
        if (shape == 0) { // a single action
            g.addNewAction(r.below(9));
            return true;
        }
        if (shape == 1) // an action that no team leads to comes first
            g.addNewAction(100);
        try {
            Mutator::TPGMutator::initRandomTPG(g, p, rng);
            int gens = (int)r.below(5);
            Archive a(4, 0);
            for (int i = 0; i < gens; i++) {
                // roots that stay
                auto roots = g.getRootVertices();
                while (roots.size() > 2 && r.below(3)) {
                    size_t k = r.below(roots.size());
                    if (dynamic_cast<const TPG::TPGTeam*>(roots[k]))
                        g.removeVertex(*roots[k]);
                    roots.erase(roots.begin() + k);
                }
                size_t teams = 0, actions = 0;
                for (auto v : g.getVertices())
                    (dynamic_cast<const TPG::TPGTeam*>(v) ? teams : actions)++;
                if (teams < actions)
                    break; // known finding K1
                k1Before(g, p);
                Mutator::TPGMutator::populateTPG(g, a, p, rng, 1);
            }
        }
        catch (std::out_of_range& e) {
            if (mayBeK1(e))
                sim::skip("K1");
            throw;
        }
        // programs that almost equal another one
        if (flip("twins", 50)) {
            std::vector<const TPG::TPGEdge*> es;
            for (auto& e : g.getEdges())
                es.push_back(e.get());
            for (int i = 0; i < 6 && !es.empty(); i++) {
                auto* from = es[r.below(es.size())];
                auto* to = es[r.below(es.size())];
                auto twin =
                    std::make_shared<Program::Program>(from->getProgram());
                if (w.nbCst && r.below(2))
                    twin->getConstantHandler().setDataAt(
                        typeid(Data::Constant), r.below(w.nbCst),
                        {(int32_t)r.below(2000) - 1000});
                else if (twin->getNbLines()) {
                    auto& l = twin->getLine(r.below(twin->getNbLines()));
                    if (r.below(2))
                        l.setDestinationIndex(r.below(w.nbReg));
                    else
                        l.setOperand(0, l.getOperand(0).first, r.below(64));
                }
                twin->identifyIntrons();
                to->setProgram(twin);
                twins++;
            }
        }
        g.clearProgramIntrons();
        // a policy alone, as after keepBestPolicy()
        if (flip("alone", 40)) {
            auto roots = g.getRootVertices();
            const TPG::TPGVertex* keep = roots[r.below(roots.size())];
            bool again = true;
            while (again) {
                again = false;
                for (auto v : g.getRootVertices())
                    if (v != keep) {
                        g.removeVertex(*v);
                        again = true;
                        break;
                    }
            }
        }
        return true;
    }

    // -------------------------------------------------------------- files
    std::string undated(std::string f)
    {
        for (;;) {
            size_t a = f.find(" * On the ");
            if (a == std::string::npos)
                return f;
            size_t b = f.find('\n', a);
            f.erase(a, b == std::string::npos ? b : b - a + 1);
        }
    }
    // What is missing at the end of a header that is not closed by #endif: the
    // compiler refuses such a file.
    bool onlyEndMissing(const std::string& whole, const std::string& part)
    {
        if (part.size() > whole.size() ||
            whole.compare(0, part.size(), part) != 0)
            return false;
        std::string rest = whole.substr(part.size());
        // only the end of the last line: the code is all there
        if (rest == "\n")
            return true;
        static const std::string end = "\n\n#endif\n#endif\n";
        size_t at = whole.rfind("#endif");
        if (at == std::string::npos || part.size() >= at + 6)
            return false;
        return rest.size() <= end.size();
    }
    typedef std::vector<std::pair<std::string, std::string>> Files;

    int cc(Files f, const char* script, std::string& out)
    {
        f.push_back({"externHeader.h", "#include <math.h>\n#include "
                                       "<stdint.h>\n"});
        int rc = sim::hostRun(f, script, out);
        if (rc == -1 || (rc >> 8) == 127 || (rc >> 8) == 99) {
            noCompiler++;
            sim::skip("no compiler");
        }
        compiled++;
        return rc;
    }
    std::string hex(const std::string& raw)
    {
        std::string r;
        char b[8];
        for (unsigned char c : raw) {
            snprintf(b, sizeof b, "%u,", c);
            r += b;
        }
        return r;
    }
    // The data, as the generated code expects it.
    std::string dataText(const W17& w, const std::string& body)
    {
        std::string m = "#include <stdio.h>\n#include <string.h>\n#include "
                        "<stdint.h>\n#include <math.h>\n";
        std::string loadAll;
        for (size_t i = 0; i < w.src.size(); i++) {
            auto& s = *w.src[i];
            std::string no = std::to_string(i + 1);
            m += s.type + " buf" + no + "[" + std::to_string(s.n) + "];\n" +
                 s.type + "* in" + no + " = buf" + no + ";\n";
            m += "static const unsigned char raw" + no + "[] = {";
            for (size_t k = 0; k < w.nbSets; k++)
                m += hex(s.recorded[k]) + "\n";
            m += "};\n";
            std::string sz = std::to_string(s.n * s.elem);
            loadAll += "memcpy(buf" + no + ", raw" + no + " + k * " + sz + ", " +
                       sz + "); ";
        }
        m += "int main(void) {\n for (int k = 0; k < " +
             std::to_string(w.nbSets) + "; k++) {\n  " + loadAll + "\n" + body +
             "\n }\n return 0;\n}\n";
        return m;
    }
    void select(W17& w, size_t k)
    {
        for (auto& s : w.src)
            for (size_t i = 0; i < s->n; i++) {
                const char* p = s->recorded[k].data() + i * s->elem;
                double v = 0;
                if (s->type == "double")
                    memcpy(&v, p, 8);
                else if (s->type == "int") {
                    int x;
                    memcpy(&x, p, 4);
                    v = x;
                }
                else if (s->type == "float") {
                    float x;
                    memcpy(&x, p, 4);
                    v = x;
                }
                else
                    v = *(const unsigned char*)p;
                s->set(i, v);
            }
    }
    std::string firstLines(const std::string& s)
    {
        std::string r;
        int n = 0;
        for (char c : s) {
            if (c == '\n' && ++n == 3)
                break;
            r += c == '\n' ? ' ' : c;
        }
        return r.substr(0, 400);
    }
    bool ioMode(bool on)
    {
        bool was = sim::faults().io;
        sim::faults().io = on;
        return was;
    }
    void drawFaults()
    {
        sim::Faults& f = sim::faults();
        static const double pw[] = {0.01, 0.05, 0.3};
        f.pShortWrite = flip("shortWrite", 30) ? pickOf("pShortWrite", pw) : 0;
        f.pEintr = flip("eintr", 30) ? pickOf("pEintr", pw) : 0;
        f.pWriteErr = flip("writeErr", 40) ? pickOf("pWriteErr", pw) : 0;
        f.pOpenErr = flip("openErr", 30) ? pickOf("pOpenErr", pw) : 0;
        f.pCloseErr = flip("closeErr", 20) ? pickOf("pCloseErr", pw) : 0;
        f.diskCapacity = -1;
    }
    const char* const parts[] = {".c", ".h", "_program.c", "_program.h"};

    void generate(const W17& w, bool stack, const std::string& name)
    {
        CodeGen::TPGGenerationEngineFactory f(
            stack ? CodeGen::TPGGenerationEngineFactory::stackMode
                  : CodeGen::TPGGenerationEngineFactory::switchMode);
        auto e = f.create(name, *w.g, "/simfs/");
        generations++;
        e->generateTPGGraph();
    }
    // The decisions of the generated code.
    void decide(W17& w, bool stack, const std::string& name)
    {
        Files f;
        for (auto p : parts)
            f.push_back({name + p, sim::fsRead("/simfs/" + name + p)});
        bool one = sim::workRng().below(3) != 0;
        std::string body = "  printf(\"%d\\n\", inferenceTPG());";
        std::string m = dataText(w, body);
        std::string script;
        if (one) {
            // all in one unit
            m = "#include \"" + name + ".c\"\n#include \"" + name +
                "_program.c\"\n" + m;
            script = "gcc -O0 -w main.c -o prog -lm && ./prog";
        }
        else {
            m = "#include \"" + name + ".h\"\n" + m;
            script = "gcc -O0 -w main.c " + name + ".c " + name +
                     "_program.c -o prog -lm && ./prog";
        }
        f.push_back({"main.c", m});
        std::string out;
        int rc = cc(f, script.c_str(), out);
        const char* mode = stack ? "stack" : "switch";
        if (rc)
            sim::violation("not_usable_code",
                           "the code generated in %s mode does not compile or "
                           "run (status %d): %s",
                           mode, rc, firstLines(out).c_str());
        TPG::TPGExecutionEngine ee(*w.env);
        const TPG::TPGVertex* root = w.g->getRootVertices().at(0);
        std::istringstream in(out);
        for (size_t k = 0; k < w.nbSets; k++) {
            select(w, k);
            long want = -1, got = -2;
            auto path = ee.executeFromRoot(*root);
            want = (long)dynamic_cast<const TPG::TPGAction*>(path.back())
                       ->getActionID();
            if (!(in >> got))
                sim::violation("no_decision",
                               "the code generated in %s mode gives %zu "
                               "decisions instead of %zu",
                               mode, k, w.nbSets);
            decisions++;
            if (got != want)
                sim::violation("other_decision",
                               "data %zu: the code generated in %s mode "
                               "chooses %ld and the engine %ld, after %zu "
                               "teams",
                               k, mode, got, want, path.size() - 1);
        }
    }
    // The results of each program.
    void runPrograms(W17& w)
    {
        std::vector<std::shared_ptr<Program::Program>> ps;
        std::set<const Program::Program*> seen;
        for (auto& e : w.g->getEdges()) {
            auto p = e->getProgramSharedPointer();
            if (seen.insert(p.get()).second)
                ps.push_back(p);
            else
                sharedPrograms++;
        }
        if (ps.empty())
            return;
        auto& r = sim::workRng();
        while (ps.size() > 40)
            ps.erase(ps.begin() + r.below(ps.size()));
        std::string name = "progs";
        uint64_t id0 = r.below(3) ? 0 : r.below(1000);
        try {
            CodeGen::ProgramGenerationEngine e(name, *w.env, "/simfs/");
            for (size_t i = 0; i < ps.size(); i++) {
                e.setProgram(*ps[i]);
                e.generateProgram(id0 + i);
            }
        }
        catch (std::exception& e) {
            sim::violation("refused", "programs cannot be generated: %s",
                           e.what());
        }
        Files f;
        f.push_back({name + ".c", sim::fsRead("/simfs/" + name + ".c")});
        f.push_back({name + ".h", sim::fsRead("/simfs/" + name + ".h")});
        std::string body;
        for (size_t i = 0; i < ps.size(); i++)
            body += "  { double d = P" + std::to_string(id0 + i) +
                    "(); uint64_t b; memcpy(&b, &d, 8); printf(\"%llx\\n\", "
                    "(unsigned long long)b); }\n";
        f.push_back({"main.c", "#include \"" + name + ".c\"\n" +
                                   dataText(w, body)});
        std::string out;
        int rc = cc(f, "gcc -O0 -w main.c -o prog -lm && ./prog", out);
        if (rc)
            sim::violation("not_usable_code",
                           "the code generated for programs does not compile "
                           "or run (status %d): %s",
                           rc, firstLines(out).c_str());
        Program::ProgramExecutionEngine pe(*w.env);
        std::istringstream in(out);
        for (size_t k = 0; k < w.nbSets; k++) {
            select(w, k);
            for (size_t i = 0; i < ps.size(); i++) {
                pe.setProgram(*ps[i]);
                double want = pe.executeProgram(false), got = 0;
                unsigned long long b = 0;
                if (!(in >> std::hex >> b))
                    sim::violation("no_result", "missing results");
                uint64_t u = b;
                memcpy(&got, &u, 8);
                programsRun++;
                if (!sameBits(got, want))
                    sim::violation(
                        "other_result",
                        "data %zu: the code of program %zu, of %zu lines, "
                        "gives %s and the engine %s",
                        k, i, (size_t)ps[i]->getNbLines(), bits(got).c_str(),
                        bits(want).c_str());
            }
        }
    }
    void once(W17& w, bool stack, bool faults, bool hidden)
    {
        std::string name = stack ? "gstack" : "gswitch";
        const char* mode = stack ? "stack" : "switch";
        // on a healthy disk
        bool printable = true;
        for (auto& e : w.g->getEdges())
            for (uint64_t l = 0; l < e->getProgram().getNbLines(); l++)
                if (!e->getProgram().isIntron(l) &&
                    !w.env->getInstructionSet()
                         .getInstruction(
                             e->getProgram().getLine(l).getInstructionIndex())
                         .isPrintable())
                    printable = false;
        try {
            generate(w, stack, name);
            if (!printable)
                sim::violation("silent",
                               "code is generated without an error for a "
                               "program with an instruction that has no code");
        }
        catch (std::exception& e) {
            if (printable)
                sim::violation("refused", "no code can be generated (%s): %s",
                               mode, e.what());
            unprintable++;
            if (sim::fsOpenHandles())
                sim::violation("open_files", "%d files are still open",
                               sim::fsOpenHandles());
            return;
        }
        Files clean;
        for (auto p : parts)
            clean.push_back({name + p, sim::fsRead("/simfs/" + name + p)});
        decide(w, stack, name);
        if (!faults)
            return;
        int n = (int)knob(stack ? "faultyStack" : "faultySwitch", 1, 6);
        static const int64_t cap[] = {0, 100, 700, 2000, 6000, 20000, 60000};
        bool full = flip(stack ? "fullStack" : "fullSwitch", 30);
        for (int i = 0; i < n; i++) {
            ioMode(true);
            if (full)
                sim::faults().diskCapacity = (int64_t)sim::fsBytesWritten() +
                                             cap[sim::workRng().below(7)] +
                                             (int64_t)sim::workRng().below(300);
            bool ok = false;
            try {
                generate(w, stack, name);
                ok = true;
            }
            catch (std::exception& e) {
                failed++;
            }
            ioMode(false);
            sim::faults().diskCapacity = -1;
            if (sim::fsOpenHandles())
                sim::violation("open_files", "%d files are still open",
                               sim::fsOpenHandles());
            if (!ok)
                continue;
            for (auto& f : clean) {
                std::string a = undated(f.second),
                            b = undated(sim::fsRead("/simfs/" + f.first));
                if (a == b)
                    continue;
                if (f.first.back() == 'h' && onlyEndMissing(a, b)) {
                    lostEnds++;
                    continue;
                }
                sim::violation("incomplete",
                               "%s is generated without an error but differs "
                               "from the one of a healthy disk: %s",
                               f.first.c_str(), firstDiff(a, b).c_str());
            }
        }
        try {
            generate(w, stack, name);
        }
        catch (std::exception& e) {
            sim::violation("not_usable",
                           "generating fails after the faults stopped: %s",
                           e.what());
        }
        for (auto& f : clean)
            if (undated(f.second) != undated(sim::fsRead("/simfs/" + f.first)))
                sim::violation("incomplete",
                               "%s is not the same when generated again",
                               f.first.c_str());
    }
} // namespace

namespace {
void oneWorld(bool hidden)
{
    W17 w;
    auto& r = sim::workRng();
    fillInstrs(w.is, hidden);
    w.src.push_back(makeSource(r.below(2) ? 0 : 3));
    int ns = (int)knob("sources", 0, 5);
    for (int i = 0; i < ns; i++)
        w.src.push_back(makeSource((int)r.below(10)));
    for (size_t i = w.src.size() - 1; i > 0; i--)
        std::swap(w.src[i], w.src[r.below(i + 1)]);
    w.nbReg = 1 + r.below(10);
    w.nbCst = r.below(3) ? r.below(8) : 0;
    std::vector<std::reference_wrapper<const Data::DataHandler>> refs;
    for (auto& s : w.src)
        refs.push_back(*s->h);
    w.env = std::make_unique<Environment>(w.is.set, refs, w.nbReg, w.nbCst);
    buildGraph(w);
    if (dynamic_cast<const TPG::TPGAction*>(w.g->getRootVertices().at(0)))
        actionRoots++;
    size_t sets = (size_t)knob("sets", 3, 40);
    for (size_t k = 0; k < sets; k++)
        w.load(k);
    sim::stateHash(fnv(dumpGraph(*w.g)));
    bool faults = flip("faults", 60);
    int which = (int)knob("which", 0, 3);
    if (which == 0 || which == 3)
        once(w, false, faults, hidden);
    if (which == 1 || which == 3)
        once(w, true, faults, hidden);
    if (which == 2 && !hidden)
        runPrograms(w);
}
} // namespace

PROP(P17)
{
    sim::setNbProcs(2);
    drawHeap();
    sim::raceDetection(false);
    quietSchedule();
    drawFaults();
    if (flip("jump", 20)) {
        sim::faults().pClockJump = 0.5;
        sim::faults().clockJumpMaxNs = 4000000000000000ll;
        sim::faults().clockBackwards = true;
    }
    bool hidden = flip("hidden", 6);
    // another environment may be served by the same process
    int worlds = flip("twoWorlds", 30) ? 2 : 1;
    secondWorlds = worlds - 1;
    for (int i = 0; i < worlds; i++)
        oneWorld(hidden);
    sim::probe("generations", generations);
    sim::probe("generations_failed", failed);
    sim::probe("compilations", compiled);
    sim::probe("decisions", decisions);
    sim::probe("program_results", programsRun);
    if (actionRoots)
        sim::probe("action_roots", actionRoots);
    if (lostEnds)
        sim::probe("headers_refused_by_the_compiler", lostEnds);
    if (unprintable)
        sim::probe("unprintable", unprintable);
    if (twins)
        sim::probe("twin_programs", twins);
    if (secondWorlds)
        sim::probe("second_worlds", secondWorlds);
    if (sharedPrograms)
        sim::probe("shared_programs", sharedPrograms);
}
