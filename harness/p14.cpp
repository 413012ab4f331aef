// P14: a saved policy graph is either restored exactly or refused.
#include "x_train.h"
#include "file/tpgGraphDotExporter.h"
#include "file/tpgGraphDotImporter.h"
#include "tpg/tpgExecutionEngine.h"
using namespace H;

namespace {
    struct S14
    {
        Cfg c;
        World* w = nullptr;
        std::unique_ptr<File::TPGGraphDotExporter> kept;
        const TPG::TPGGraph* keptOf = nullptr;
        std::unique_ptr<TPG::TPGGraph> keptGraph;
        std::unique_ptr<File::TPGGraphDotImporter> keptImporter;
        size_t reimports = 0;
        size_t exports = 0, exportsFailed = 0, imports = 0, refused = 0,
               cuts = 0, files = 0, sameAsCut = 0;
        size_t longest = 0;
    };
    S14 s;

    struct Canon
    {
        std::vector<std::string> teams; // in order: edges with programs
        std::set<uint64_t> actions;
        size_t nbActionVertices = 0, nbEdges = 0;
        std::string text() const
        {
            std::ostringstream o;
            for (size_t i = 0; i < teams.size(); i++)
                o << "T" << i << teams[i] << "\n";
            o << "actions";
            for (auto a : actions)
                o << " " << a;
            o << "\nedges " << nbEdges << "\n";
            return o.str();
        }
    };
    // From a root (depth first order of the edges), or the whole graph.
    Canon canon(const TPG::TPGGraph& g, const TPG::TPGVertex* root)
    {
        Canon c;
        std::map<const TPG::TPGVertex*, size_t> id;
        std::vector<const TPG::TPGVertex*> teams;
        auto meet = [&](const TPG::TPGVertex* v) {
            if (auto a = dynamic_cast<const TPG::TPGAction*>(v)) {
                c.actions.insert(a->getActionID());
                return;
            }
            if (id.emplace(v, teams.size()).second)
                teams.push_back(v);
        };
        if (root)
            meet(root);
        else
            for (auto v : g.getVertices())
                meet(v);
        std::map<const Program::Program*, size_t> progs;
        for (size_t i = 0; i < teams.size(); i++) {
            std::ostringstream o;
            for (auto e : teams[i]->getOutgoingEdges()) {
                meet(e->getDestination());
                c.nbEdges++;
                if (auto a = dynamic_cast<const TPG::TPGAction*>(
                        e->getDestination()))
                    o << " ->A" << a->getActionID();
                else
                    o << " ->T" << id[e->getDestination()];
                auto p = &e->getProgram();
                auto r = progs.emplace(p, progs.size());
                o << " P" << r.first->second;
                if (r.second)
                    o << " {" << programText(*p) << "}";
            }
            c.teams.push_back(o.str());
        }
        for (auto v : g.getVertices())
            c.nbActionVertices +=
                dynamic_cast<const TPG::TPGAction*>(v) != nullptr;
        return c;
    }
    std::string body(const std::string& f)
    {
        // the date differs
        std::string r = f;
        size_t a = r.find("// On the ");
        if (a != std::string::npos) {
            size_t b = r.find('\n', a);
            r.erase(a, b == std::string::npos ? std::string::npos : b - a);
        }
        return r;
    }
    bool ioMode(bool on)
    {
        bool was = sim::faults().io;
        sim::faults().io = on;
        return was;
    }
    struct NoFaults
    {
        bool was;
        int64_t cap;
        NoFaults() : was(ioMode(false)), cap(sim::faults().diskCapacity)
        {
            sim::faults().diskCapacity = -1;
        }
        ~NoFaults()
        {
            ioMode(was);
            sim::faults().diskCapacity = cap;
        }
    };
    void drawFaults()
    {
        sim::Faults& f = sim::faults();
        static const double pw[] = {0.02, 0.1, 0.3};
        f.pShortWrite = flip("shortWrite", 30) ? pickOf("pShortWrite", pw) : 0;
        f.pShortRead = flip("shortRead", 40) ? pickOf("pShortRead", pw) : 0;
        f.pEintr = flip("eintr", 30) ? pickOf("pEintr", pw) : 0;
        f.pWriteErr = flip("writeErr", 30) ? pickOf("pWriteErr", pw) : 0;
        f.pReadErr = flip("readErr", 30) ? pickOf("pReadErr", pw) : 0;
        f.pOpenErr = flip("openErr", 30) ? pickOf("pOpenErr", pw) : 0;
        f.pCloseErr = flip("closeErr", 20) ? pickOf("pCloseErr", pw) : 0;
        f.diskCapacity = -1;
    }


    // same decisions, on the data of a few states
    void sameDecisions(const TPG::TPGGraph& a, const TPG::TPGGraph& b,
                       World& wb, const TPG::TPGVertex* root)
    {
        World& wa = *s.w;
        std::vector<const TPG::TPGVertex*> ra, rb;
        for (auto v : a.getVertices())
            if (dynamic_cast<const TPG::TPGTeam*>(v))
                ra.push_back(v);
        for (auto v : b.getVertices())
            if (dynamic_cast<const TPG::TPGTeam*>(v))
                rb.push_back(v);
        if (root) {
            ra = {root};
            rb.resize(rb.size() ? 1 : 0);
        }
        if (ra.empty() || ra.size() != rb.size())
            return;
        auto ta = a.getFactory().createTPGExecutionEngine(
            wa.agent->getEnvironment(), nullptr);
        auto tb = b.getFactory().createTPGExecutionEngine(
            wb.agent->getEnvironment(), nullptr);
        EnvCore keepA(*wa.core());
        for (int i = 0; i < 3; i++) {
            uint64_t seed = sim::workRng().next();
            wa.core()->reset(seed, Learn::LearningMode::TESTING, 0, 0);
            wb.core()->reset(seed, Learn::LearningMode::TESTING, 0, 0);
            for (int k = 0; k < 3; k++) {
                size_t r = sim::workRng().below(ra.size());
                auto pa = ta->executeFromRoot(*ra[r]);
                auto pb = tb->executeFromRoot(*rb[r]);
                auto act = [](const TPG::TPGVertex* v) {
                    auto x = dynamic_cast<const TPG::TPGAction*>(v);
                    return x ? (int64_t)x->getActionID() : -1;
                };
                if (pa.size() != pb.size() ||
                    act(pa.back()) != act(pb.back()))
                    sim::violation("decision",
                                   "the imported graph goes to action %d "
                                   "through %zu vertices, the exported one to "
                                   "%d through %zu",
                                   (int)act(pb.back()), pb.size(),
                                   (int)act(pa.back()), pa.size());
                wa.core()->act((uint64_t)act(pa.back()));
                wb.core()->act((uint64_t)act(pb.back()));
            }
        }
        wa.core()->state = keepA.state;
        wa.core()->fill();
    }
    struct Saved
    {
        std::string path;
        const TPG::TPGVertex* root; // of a sub graph, or null
        Canon want;
    };
    void compare(const Saved& f, const TPG::TPGGraph& g, const char* what)
    {
        Canon got;
        const TPG::TPGVertex* r = nullptr;
        if (f.root) {
            auto vs = g.getVertices();
            for (auto v : vs)
                if (dynamic_cast<const TPG::TPGTeam*>(v)) {
                    r = v;
                    break;
                }
            if (!r && vs.size())
                r = vs[0];
        }
        got = canon(g, r);
        std::string a = f.want.text(), b = got.text();
        if (a != b)
            sim::violation("different_graph", "%s: %s", what,
                           firstDiff(a, b).c_str());
        if (got.nbActionVertices != got.actions.size())
            sim::violation("actions", "%s: %zu vertices for %zu actions", what,
                           got.nbActionVertices, got.actions.size());
        size_t edges = 0;
        for (auto& e : g.getEdges())
            edges += e != nullptr;
        if (edges != got.nbEdges)
            sim::violation("edges", "%s: %zu edges, %zu reachable", what,
                           edges, got.nbEdges);
    }
    // The file must hold the graph: called without faults.
    void complete(const Saved& f, const TPG::TPGGraph& g, bool fresh)
    {
        std::string text = sim::fsRead(f.path);
        s.files++;
        size_t nl = 0, longest = 0;
        for (size_t i = 0; i <= text.size(); i++)
            if (i == text.size() || text[i] == '\n') {
                longest = std::max(longest, i - nl);
                nl = i + 1;
            }
        s.longest = std::max(s.longest, longest);
        if (text.empty() || text.back() != '\n' ||
            text.find_last_of('}') != text.size() - 2)
            sim::violation("incomplete",
                           "the export to %s reported no error and the file, "
                           "of %zu bytes, is not complete",
                           f.path.c_str(), text.size());
        std::string clean;
        {
            File::TPGGraphDotExporter e("/simfs/clean.dot", g);
            if (f.root)
                e.printSubGraph(f.root);
            else
                e.print();
        }
        clean = sim::fsRead("/simfs/clean.dot");
        if (fresh && body(clean) != body(text))
            sim::violation("incomplete",
                           "the export to %s reported no error, but the file "
                           "differs from an export without faults: %s",
                           f.path.c_str(),
                           firstDiff(body(clean), body(text)).c_str());
        // import in another environment of the same structure
        World w2(s.c);
        TPG::TPGGraph g2(w2.agent->getEnvironment());
        if (flip("importFull", 20)) {
            // into a graph that is not empty
            g2.addNewTeam();
            g2.addNewAction(0);
        }
        try {
            File::TPGGraphDotImporter im(f.path.c_str(),
                                         w2.agent->getEnvironment(), g2);
            compare(f, g2, "imported graph");
            if (flip("importTwice", 25)) {
                im.importGraph();
                compare(f, g2, "graph imported twice");
            }
        }
        catch (std::exception& e) {
            sim::violation("refused",
                           "a complete file, with lines of up to %zu "
                           "characters, cannot be imported: %s",
                           longest, e.what());
        }
        s.imports++;
        checkLinks(g2, "import");
        sameDecisions(g, g2, w2, f.root);
        if (!f.root) {
            File::TPGGraphDotExporter e("/simfs/again.dot", g2);
            e.print();
            std::string again = sim::fsRead("/simfs/again.dot");
            if (body(again) != body(clean))
                sim::violation("export_again",
                               "exporting the imported graph gives another "
                               "file: %s",
                               firstDiff(body(clean), body(again)).c_str());
        }
    }
    // An import that may fail, but may not give another graph.
    bool tryImport(const Saved& f, const std::string& path, const char* what)
    {
        TPG::TPGGraph g2(s.w->agent->getEnvironment());
        try {
            File::TPGGraphDotImporter im(path.c_str(),
                                         s.w->agent->getEnvironment(), g2);
            NoFaults n;
            compare(f, g2, what);
        }
        catch (std::exception& e) {
            s.refused++;
            return false;
        }
        s.imports++;
        return true;
    }
    void cuts(const Saved& f)
    {
        std::string text = sim::fsRead(f.path);
        size_t n = (size_t)knob("nbCuts", 2, 12);
        if (text.size() > 60000)
            n = std::min(n, (size_t)3);
        std::vector<size_t> lines;
        for (size_t i = 0; i < text.size(); i++)
            if (text[i] == '\n')
                lines.push_back(i);
        for (size_t i = 0; i < n; i++) {
            size_t at;
            switch (sim::workRng().below(4)) {
            case 0: // around the end of a line
                at = lines[sim::workRng().below(lines.size())] +
                     sim::workRng().below(3);
                break;
            case 1: // at the beginning of a line
                at = lines[sim::workRng().below(lines.size())] +
                     sim::workRng().below(12);
                break;
            case 2: // near the end of the file
                at = text.size() -
                     sim::workRng().below(std::min(text.size(), (size_t)200));
                break;
            default:
                at = sim::workRng().below(text.size());
            }
            if (at >= text.size())
                continue;
            sim::fsWrite("/simfs/cut.dot", text.substr(0, at));
            s.cuts++;
            char what[80];
            snprintf(what, sizeof what, "file of %zu bytes cut at byte %zu",
                     text.size(), at);
            s.sameAsCut += tryImport(f, "/simfs/cut.dot", what);
        }
    }
    // An importer that is used for several files
    void importAgain(const Saved& f)
    {
        if (!s.keptImporter) {
            auto& env = s.w->agent->getEnvironment();
            s.keptGraph = std::make_unique<TPG::TPGGraph>(env);
            s.keptImporter = std::make_unique<File::TPGGraphDotImporter>(
                f.path.c_str(), env, *s.keptGraph);
            compare(f, *s.keptGraph, "graph of a kept importer");
            return;
        }
        s.reimports++;
        int tries = (int)sim::workRng().below(3);
        ioMode(true);
        for (int i = 0; i < tries; i++)
            try {
                s.keptImporter->setNewFilePath(f.path.c_str());
                s.keptImporter->importGraph();
                NoFaults n;
                compare(f, *s.keptGraph, "graph of a kept importer");
                break;
            }
            catch (std::exception& e) {
                s.refused++;
            }
        ioMode(false);
        try {
            s.keptImporter->setNewFilePath(f.path.c_str());
            s.keptImporter->importGraph();
        }
        catch (std::exception& e) {
            sim::violation("refused",
                           "a kept importer refuses a complete file: %s",
                           e.what());
        }
        compare(f, *s.keptGraph, "graph of a kept importer");
        checkLinks(*s.keptGraph, "import");
    }
    // Exports with faults; what reports success is examined.
    void exportOnce(const TPG::TPGGraph& g, const TPG::TPGVertex* best)
    {
        static int no = 0;
        Saved f;
        // every export has its own draws
        std::string tag = "_" + std::to_string(no);
        auto flip = [&](const char* n, int pct) {
            return H::flip((n + tag).c_str(), pct);
        };
        auto knob = [&](const char* n, int64_t lo, int64_t hi) {
            return H::knob((n + tag).c_str(), lo, hi);
        };
        f.path = "/simfs/g" + std::to_string(no++ % 3) + ".dot";
        f.root = nullptr;
        if (flip("subGraph", 30)) {
            auto vs = g.getVertices();
            f.root = best && flip("subBest", 50)
                         ? best
                         : vs[sim::workRng().below(vs.size())];
        }
        f.want = canon(g, f.root);
        bool reuse = flip("reuse", 40);
        bool done = false, fresh = false;
        int tries = (int)knob("tries", 1, 4);
        sim::Faults& fl = sim::faults();
        static const int64_t cap[] = {0, 50, 500, 2000, 10000, 40000};
        bool full = flip("diskFull", 20);
        ioMode(flip("faults", 65));
        for (int i = 0; i < tries && !done; i++) {
            if (full && fl.io)
                fl.diskCapacity =
                    (int64_t)sim::fsBytesWritten() + cap[knob("capacity", 0, 5)];
            s.exports++;
            try {
                if (reuse && s.keptOf == &g && s.kept) {
                    fresh = false;
                    s.kept->setNewFilePath(f.path.c_str());
                    f.root ? s.kept->printSubGraph(f.root) : s.kept->print();
                }
                else {
                    fresh = true;
                    s.kept.reset();
                    s.kept = std::make_unique<File::TPGGraphDotExporter>(
                        f.path.c_str(), g);
                    s.keptOf = &g;
                    f.root ? s.kept->printSubGraph(f.root) : s.kept->print();
                }
                done = true;
            }
            catch (std::exception& e) {
                s.exportsFailed++;
                sim::event("export failed: %s", e.what());
            }
        }
        if (done) {
            NoFaults n;
            if (flip("closeNow", 30))
                s.kept.reset();
            complete(f, g, fresh);
        }
        // reading with faults
        if (done && flip("readFaults", 60)) {
            ioMode(true);
            fl.diskCapacity = -1;
            int nr = (int)knob("reads", 1, 3);
            for (int i = 0; i < nr; i++)
                tryImport(f, f.path, "import under faults");
        }
        ioMode(false);
        fl.diskCapacity = -1;
        // power failure during a later export to the same file
        if (flip("crash", 30)) {
            s.kept.reset();
            sim::fsSyncAll();
            try {
                File::TPGGraphDotExporter e(f.path.c_str(), g);
                f.root ? e.printSubGraph(f.root) : e.print();
            }
            catch (std::exception& e) {
            }
            ioMode(true);
            sim::fsCrash();
            ioMode(false);
            tryImport(f, f.path, "file after a power failure");
        }
        // once the faults have stopped, exporting works again
        try {
            if (s.kept && s.keptOf == &g) {
                s.kept->setNewFilePath(f.path.c_str());
                f.root ? s.kept->printSubGraph(f.root) : s.kept->print();
            }
            else {
                File::TPGGraphDotExporter e(f.path.c_str(), g);
                f.root ? e.printSubGraph(f.root) : e.print();
            }
        }
        catch (std::exception& e) {
            sim::violation("not_usable",
                           "the export fails after the faults stopped: %s",
                           e.what());
        }
        complete(f, g, false);
        if (flip("keepImporter", 60))
            importAgain(f);
        cuts(f);
    }
} // namespace

PROP(P14)
{
    sim::setNbProcs(4);
    s.c = drawCfg(1 << AK_LEARN | 1 << AK_PAR | 1 << AK_CLASS |
                      1 << AK_CLASS_SEQ | 1 << AK_ADV,
                  5);
    Cfg& c = s.c;
    if (flip("bigPrograms", 12)) {
        c.p.mutation.prog.maxProgramSize = (size_t)knob("bigSize", 100, 700);
        c.p.mutation.tpg.nbRoots = std::min<size_t>(c.p.mutation.tpg.nbRoots,
                                                    6);
        c.nbGen = std::min(c.nbGen, 2);
    }
    drawHeap();
    sim::raceDetection(false);
    drawSchedule();
    sim::note("agentName", agentName(c.agent));
    drawFaults();
    {
        World w(c);
        s.w = &w;
        Train t(w);
        t.onEnd = [&] {
            if (!flip("during", 35))
                return;
            auto& br = w.agent->getBestRoot();
            exportOnce(w.graph(), br.first);
        };
        w.agent->init(c.seed);
        for (int i = 0; i < c.nbGen; i++)
            t.generation((uint64_t)i);
        if (flip("keepBest", 20))
            w.agent->keepBestPolicy();
        auto& br = w.agent->getBestRoot();
        int last = (int)knob("lastExports", 1, 3);
        for (int i = 0; i < last; i++)
            exportOnce(w.graph(), br.first);
        s.kept.reset();
        s.keptImporter.reset();
        s.keptGraph.reset();
        if (sim::fsOpenHandles())
            sim::violation("open_files", "%d files are still open",
                           sim::fsOpenHandles());
        s.w = nullptr;
    }
    sim::probe("exports", s.exports);
    sim::probe("exports_failed", s.exportsFailed);
    sim::probe("imports", s.imports);
    sim::probe("imports_refused", s.refused);
    sim::probe("importers_reused", s.reimports);
    sim::probe("cuts", s.cuts);
    sim::probe("cuts_still_complete", s.sameAsCut);
    if (s.longest > 4096)
        sim::probe("long_lines");
}
