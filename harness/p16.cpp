// P16: training logs are complete and true, whatever the clock and streams do.
#include "x_train.h"
using namespace H;

namespace {
    // Forwards up to `left` characters, then fails in the drawn way.
    struct Chan : std::streambuf
    {
        std::string got;
        int64_t left;
        int mode; // 0 never fails, 1 fails, 2 throws, 3 fails once
        Chan(int m, int64_t l) : left(l), mode(m)
        {
        }
        bool broken()
        {
            if (!mode || left > 0)
                return false;
            sim::fired(sim::F_STREAM_FAIL);
            if (mode == 2)
                throw std::runtime_error("stream");
            return true;
        }
        int overflow(int c) override
        {
            if (broken())
                return EOF;
            left--;
            if (c != EOF)
                got.push_back((char)c);
            return c == EOF ? 0 : c;
        }
        std::streamsize xsputn(const char* s, std::streamsize n) override
        {
            if (broken())
                return 0;
            std::streamsize k = mode ? std::min<std::streamsize>(n, left) : n;
            got.append(s, (size_t)k);
            left -= k;
            return k;
        }
        int sync() override
        {
            return broken() ? -1 : 0;
        }
    };
    struct Col
    {
        const char* what;
        double lo, hi;
    };
    struct Row
    {
        std::vector<Col> cols;
    };
    struct Times
    {
        uint64_t gen = 0, pop = 0, eval = 0, dec = 0, val = 0, end = 0;
    };
    struct S16
    {
        Cfg c;
        World* w = nullptr;
        Times before, after;
        uint64_t made0 = 0, made1 = 0;
        Row row;
        std::vector<Row> rows;
        std::string stats; // expected text of the statistics log
        std::string cycles;
        const TPG::TPGVertex* last = nullptr;
        uint64_t gen = 0;
        size_t nbStats = 0;
    };
    S16 s;

    // the characters of a value written in a column of 9
    bool matchRow(const std::string& t, size_t at, const Row& r, size_t col,
                  std::string* why, size_t* deepest)
    {
        if (col == r.cols.size())
            return at == t.size();
        for (size_t n = 9; n <= 14 && at + n <= t.size(); n++) {
            std::string f = t.substr(at, n);
            size_t b = f.find_first_not_of(' ');
            if (b == std::string::npos || (n > 9 && b > 0))
                continue;
            std::string num = f.substr(b);
            if (num.find(' ') != std::string::npos)
                continue;
            char* e = nullptr;
            double v = strtod(num.c_str(), &e);
            if (*e)
                continue;
            const Col& c = r.cols[col];
            // as precise as what is written
            size_t dot = num.find('.'), ex = num.find_first_of("eE");
            double tol = 1e-9 + 1e-12 * std::max(std::fabs(c.lo),
                                                 std::fabs(c.hi));
            if (ex != std::string::npos)
                tol += 1.01e-5 * std::fabs(v);
            else if (dot != std::string::npos)
                tol += 0.51 * std::pow(10.0, -(double)(num.size() - dot - 1));
            bool ok = (c.lo != c.lo) ? v != v
                      : (v >= c.lo - tol && v <= c.hi + tol) || v == c.lo;
            if (col >= *deepest) {
                *deepest = col;
                if (!ok) {
                    char x[200];
                    snprintf(x, sizeof x, "column %zu (%s) is %s, expected %.9g"
                             " to %.9g", col, c.what, num.c_str(), c.lo, c.hi);
                    *why = x;
                }
            }
            if (ok && matchRow(t, at + n, r, col + 1, why, deepest))
                return true;
        }
        return false;
    }

    template <class M> std::string pairs(const M& m, const char* sep)
    {
        std::ostringstream o;
        for (auto& x : m)
            o << "{" << x.first << "," << x.second << "}" << sep;
        return o.str();
    }
    double avg(size_t sum, size_t n)
    {
        return n ? (double)sum / (double)n : NAN;
    }
    // what the statistics of a policy must say
    std::string describe(const TPG::TPGVertex* root)
    {
        const ISet& is = *s.w->is;
        size_t nbReg = s.c.p.nbRegisters, nbCst = s.c.p.nbProgramConstant;
        std::set<const TPG::TPGVertex*> teams;
        std::map<size_t, size_t> stage, action, instr;
        std::map<const Program::Program*, size_t> progs;
        std::map<std::pair<size_t, size_t>, size_t> loc;
        size_t edges = 0, lines = 0, introns = 0, depth = 0;
        std::vector<const TPG::TPGVertex*> cur{root}, nxt;
        while (!cur.empty()) {
            stage[depth] = cur.size();
            nxt.clear();
            for (auto v : cur) {
                if (auto a = dynamic_cast<const TPG::TPGAction*>(v)) {
                    action[(size_t)a->getActionID()]++;
                    continue;
                }
                if (!teams.insert(v).second)
                    continue;
                for (auto e : v->getOutgoingEdges()) {
                    edges++;
                    nxt.push_back(e->getDestination());
                    const Program::Program& p = e->getProgram();
                    if (progs[&p]++)
                        continue;
                    std::vector<bool> intron;
                    effective(is, p, nbReg, nbCst, &intron);
                    lines += p.getNbLines();
                    for (size_t i = 0; i < p.getNbLines(); i++) {
                        if (intron[i]) {
                            introns++;
                            continue;
                        }
                        auto& l = p.getLine(i);
                        instr[(size_t)l.getInstructionIndex()]++;
                        auto& in = is.infos[l.getInstructionIndex()];
                        for (size_t k = 0; k < in.ops.size(); k++) {
                            size_t src = (size_t)l.getOperand(k).first;
                            uint64_t at = l.getOperand(k).second;
                            if (src == 0) {
                                if (in.ops[k] == OK_DOUBLE)
                                    loc[{0, at % nbReg}]++;
                                else {
                                    loc[{0, at % (nbReg - 1)}]++;
                                    loc[{0, at % (nbReg - 1) + 1}]++;
                                }
                            }
                            else if (nbCst && src == 1)
                                loc[{1, at % nbCst}]++;
                            else
                                for (size_t x : touched(
                                         s.c.env,
                                         (int)src - 1 - (nbCst ? 1 : 0),
                                         in.ops[k], at))
                                    loc[{src, x}]++;
                        }
                    }
                }
            }
            cur = nxt;
            depth++;
        }
        auto sum = [](auto& m) {
            size_t n = 0;
            for (auto& x : m)
                n += x.second;
            return n;
        };
        std::ostringstream o;
        o << "# PolicyStats\n## Topology info\nTeams:\t\t" << teams.size()
          << "\nEdges:\t\t" << edges << "\nActions:\t" << action.size()
          << "\nStages\t\t" << depth - 1 << "\nVertex/stage:\t"
          << pairs(stage, " ") << "\nUse/action:\t"
          << avg(sum(action), action.size()) << ": " << pairs(action, " ")
          << "\n\n## Program info\nPrograms:\t" << progs.size()
          << "\nLine/prog:\t" << avg(lines, progs.size()) << "\nIntr/prog:\t"
          << avg(introns, progs.size()) << "\nUse/prog:\t"
          << avg(sum(progs), progs.size()) << "\nUse/instr:\t"
          << avg(sum(instr), instr.size()) << ": " << pairs(instr, "")
          << "\n\n## Data info";
        size_t h = (size_t)-1;
        for (auto& x : loc) {
            if (x.first.first != h) {
                h = x.first.first;
                size_t acc = 0, nb = 0;
                for (auto& y : loc)
                    if (y.first.first == h) {
                        acc += y.second;
                        nb++;
                    }
                o << "\n\n### DataHandler " << h << "\nAccesses:\t" << acc
                  << "\nLocations:\t" << nb << "\n";
            }
            o << "{" << x.first.second << "," << x.second << "} ";
        }
        if (teams.empty())
            sim::probe("best_policy_is_an_action");
        return o.str();
    }
    std::string normal(std::string t)
    {
        size_t i;
        while ((i = t.find("-nan")) != std::string::npos)
            t.erase(i, 1);
        return t;
    }
    void results(Results& r, const char* a, const char* b, const char* c)
    {
        double lo = INFINITY, hi = -INFINITY, sum = 0;
        for (auto& x : r) {
            double v = x.first->getResult();
            lo = std::min(lo, v);
            hi = std::max(hi, v);
            sum += v;
        }
        sum /= (double)r.size();
        double t = 1e-12 * std::max(std::fabs(lo), std::fabs(hi));
        s.row.cols.push_back({a, lo, lo});
        s.row.cols.push_back({b, sum - t, sum + t});
        s.row.cols.push_back({c, hi, hi});
    }
    Col dur(const char* n, uint64_t b0, uint64_t b1, uint64_t e0, uint64_t e1)
    {
        // from somewhere in [b0,b1] to somewhere in [e0,e1]
        return {n, (double)(e0 - b1) * 1e-9, (double)(e1 - b0) * 1e-9};
    }
    bool hasCycle(const TPG::TPGGraph& g)
    {
        // peel the vertices without incoming edges
        auto vs = g.getVertices();
        std::map<const TPG::TPGVertex*, size_t> in;
        for (auto v : vs)
            in[v] = 0;
        for (auto v : vs)
            for (auto e : v->getOutgoingEdges())
                in[e->getDestination()]++;
        std::vector<const TPG::TPGVertex*> q;
        for (auto v : vs)
            if (!in[v])
                q.push_back(v);
        size_t n = 0;
        while (!q.empty()) {
            auto v = q.back();
            q.pop_back();
            n++;
            for (auto e : v->getOutgoingEdges())
                if (!--in[e->getDestination()])
                    q.push_back(e->getDestination());
        }
        return n != vs.size();
    }

    void checkCycleText(const std::string& t, bool cyc, bool onSuccess,
                        const char* when)
    {
        bool says = t.find("A cycle was detected") != std::string::npos;
        bool no = t.find("No cycle") != std::string::npos;
        if (says != cyc || no != (!cyc && onSuccess))
            sim::violation("cycle_log",
                           "the graph %s a cycle %s and the cycle log says "
                           "'%s'",
                           cyc ? "has" : "does not have", when,
                           t.substr(0, 120).c_str());
    }
} // namespace

static void cyclesIn(World& w)
{
    // graphs with and without cycles, edited at random
    Chan ch(0, 0);
    std::ostream os(&ch);
    bool ok = flip("logOnSuccess", 60);
    auto lg = std::make_unique<Log::CycleDetectionLALogger>(*w.agent, os, ok);
    w.agent->init(w.cfg.seed);
    auto& g = w.graph();
    int n = (int)knob("edits", 1, 30);
    auto& r = sim::workRng();
    for (int i = 0; i < n; i++) {
        auto vs = g.getVertices();
        std::vector<const TPG::TPGVertex*> teams;
        for (auto v : vs)
            if (dynamic_cast<const TPG::TPGTeam*>(v))
                teams.push_back(v);
        std::vector<TPG::TPGEdge*> es;
        for (auto& e : g.getEdges())
            es.push_back(e.get());
        switch (r.below(6)) {
        case 0:
            if (teams.size() < 9)
                g.addNewTeam();
            break;
        case 1:
        case 2:
            if (!teams.empty() && !es.empty() && es.size() < 24) {
                auto p = es[r.below(es.size())]->getProgramSharedPointer();
                g.addNewEdge(*teams[r.below(teams.size())],
                             *vs[r.below(vs.size())], p);
            }
            break;
        case 3:
            if (!es.empty() && es.size() > 2)
                g.removeEdge(*es[r.below(es.size())]);
            break;
        case 4:
            if (!es.empty())
                g.setEdgeDestination(*es[r.below(es.size())],
                                     *vs[r.below(vs.size())]);
            break;
        case 5:
            if (vs.size() > 2 && r.below(3) == 0)
                g.removeVertex(*vs[r.below(vs.size())]);
            break;
        }
        bool cyc;
        {
            sim::OracleScope o;
            cyc = hasCycle(g);
            ch.got.clear();
        }
        lg->logAfterPopulateTPG();
        sim::OracleScope o;
        if (cyc)
            sim::probe(g.getNbRootVertices() ? "cyclic_graph"
                                             : "cyclic_graph_without_root");
        uint64_t h = fnv(dumpGraph(g));
        sim::stateHash(h);
        checkCycleText(ch.got, cyc, ok, "after an edit");
    }
}

PROP(P16)
{
    sim::setNbProcs(4);
    Cfg c = drawCfg(1 << AK_LEARN | 1 << AK_PAR | 1 << AK_CLASS |
                        1 << AK_CLASS_SEQ | 1 << AK_ADV,
                    4);
    if (flip("parallel", 30))
        setParallelKnobs(c);
    static const double rd[] = {0.0, 0.25, 0.5, 0.8, 1.0};
    c.p.ratioDeletedRoots = pickOf("ratioDeletedRoots16", rd);
    sim::raceDetection(false);
    sim::note("agentName", agentName(c.agent));
    s.c = c;
    drawHeap();
    if (flip("cycles", 25)) {
        quietSchedule();
        World w(c);
        cyclesIn(w);
        return;
    }
    quietSchedule();
    RunDump a, b;
    bool twice = flip("secondLife", 35);
    bool twin = !twice && flip("twin", 40);
    if (twin) {
        World w(c);
        trainAndDump(w, a);
    }
    if (flip("clockJumps", 70)) {
        sim::Faults f = sim::faults();
        static const double pj[] = {0.02, 0.1, 0.4};
        f.pClockJump = pickOf("pJump", pj);
        static const int64_t mx[] = {1000000ll, 1000000000ll,
                                     3600ll * 1000000000ll};
        f.clockJumpMaxNs = pickOf("maxJump", mx);
        f.clockBackwards = true;
        sim::setFaults(f);
    }
    drawSchedule();
    World w(c);
    s.w = &w;
    auto& la = *w.agent;
    Chan good(0, 0), pol(0, 0), cyc(0, 0),
        bad((int)knob("failMode", 0, 2), knob("failAfter", 0, 2000));
    std::ostream og(&good), op(&pol), oc(&cyc), ob(&bad), on(nullptr);
    bool onSuccess = flip("logOnSuccess", 50);
    std::unique_ptr<Phases> A, B;
    std::unique_ptr<Log::LABasicLogger> broken;
    bool first = flip("brokenFirst", 50);
    {
        sim::OracleScope o;
        A = std::make_unique<Phases>(la, on);
    }
    if (first)
        broken = std::make_unique<Log::LABasicLogger>(la, ob);
    s.made0 = sim::now();
    Log::LABasicLogger basic(la, og);
    s.made1 = sim::now();
    Log::LAPolicyStatsLogger stats(la, op);
    Log::CycleDetectionLALogger cycles(la, oc, onSuccess);
    if (!first)
        broken = std::make_unique<Log::LABasicLogger>(la, ob);
    {
        sim::OracleScope o;
        B = std::make_unique<Phases>(la, on);
    }
    A->newGen = [&](uint64_t g) {
        s.before.gen = sim::now();
        sim::OracleScope o;
        s.gen = g;
        s.row.cols.clear();
        s.row.cols.push_back({"generation", (double)g, (double)g});
    };
    // the time taken by each phase, by far longer than the clock reads
    static const uint64_t pt[] = {0, 30000000ull, 5000000000ull,
                                  90000000000ull};
    uint64_t phase = pickOf("phaseTime", pt);
    auto work = [&] {
        if (phase)
            sim::advance(sim::workRng().below(phase));
    };
    B->newGen = [&](uint64_t) {
        s.after.gen = sim::now();
        work();
    };
    A->populated = [&] {
        s.before.pop = sim::now();
        sim::OracleScope o;
        double n = (double)w.graph().getVertices().size();
        s.row.cols.push_back({"vertices", n, n});
    };
    B->populated = [&] {
        s.after.pop = sim::now();
        sim::OracleScope o;
        checkCycleText(cyc.got, hasCycle(w.graph()), onSuccess,
                       "after population");
        cyc.got.clear();
        work();
    };
    A->evaluated = [&](Results& r) {
        s.before.eval = sim::now();
        sim::OracleScope o;
        results(r, "minimum", "average", "maximum");
    };
    B->evaluated = [&](Results&) {
        s.after.eval = sim::now();
        work();
    };
    B->decimated = [&] {
        work();
        sim::OracleScope o;
        auto best = la.getBestRoot();
        if (best.first != s.last) {
            s.last = best.first;
            if (best.first) {
                std::ostringstream x;
                x << "Generation " << s.gen << " - Score "
                  << best.second->getResult() << "\n\n"
                  << describe(best.first) << "\n\n\n==========\n\n";
                s.stats += x.str();
                s.nbStats++;
            }
        }
        if (normal(pol.got) != normal(s.stats))
            sim::violation("policy_log", "generation %llu: the statistics log "
                           "differs from the actual policies: %s",
                           (unsigned long long)s.gen,
                           firstDiff(normal(s.stats), normal(pol.got)).c_str());
    };
    A->validated = [&](Results& r) {
        s.before.val = sim::now();
        sim::OracleScope o;
        results(r, "validation minimum", "validation average",
                "validation maximum");
    };
    B->validated = [&](Results&) {
        s.after.val = sim::now();
        work();
    };
    A->end = [&] { s.before.end = sim::now(); };
    B->end = [&] {
        s.after.end = sim::now();
        sim::OracleScope o;
        auto &x = s.before, &y = s.after;
        s.row.cols.push_back(dur("T_mutat", x.gen, y.gen, x.pop, y.pop));
        s.row.cols.push_back(dur("T_eval", x.pop, y.pop, x.eval, y.eval));
        if (c.p.doValidation)
            s.row.cols.push_back(dur("T_valid", x.eval, y.eval, x.val, y.val));
        s.row.cols.push_back(dur("T_total", s.made0, s.made1, x.end, y.end));
        s.rows.push_back(s.row);
    };
    trainAndDump(w, b);
    if (twin) {
        compareRuns("log_disturbs", "training with loggers differs from "
                                    "training without",
                    a, b);
        sim::probe("twin_compared");
    }
    if (twice) {
        // same agent, initialised again: its first best policy is new
        {
            sim::OracleScope o;
            s.last = nullptr;
            w.cfg.seed += (uint64_t)knob("otherSeed", 0, 2);
        }
        trainAndDump(w, b);
        sim::probe("second_life");
    }
    sim::OracleScope o;
    if (s.nbStats > 1)
        sim::probe("several_best_policies");
    // the header then one row per generation
    std::vector<std::string> ls;
    std::istringstream is(good.got);
    std::string l;
    while (std::getline(is, l))
        ls.push_back(l);
    if (good.got.empty() || good.got.back() != '\n')
        sim::violation("log_incomplete", "the log does not end with a line");
    size_t h = 0;
    while (h < ls.size() && ls[h].find("T_total") == std::string::npos)
        h++;
    if (h == ls.size())
        sim::violation("log_header", "the log has no header");
    if ((ls[h].find("T_valid") != std::string::npos) != c.p.doValidation)
        sim::violation("log_header", "header '%s' while validation is %s",
                       ls[h].c_str(), c.p.doValidation ? "on" : "off");
    h++;
    if (ls.size() - h != s.rows.size())
        sim::violation("log_rows", "%zu rows for %zu generations",
                       ls.size() - h, s.rows.size());
    for (size_t i = 0; i < s.rows.size(); i++) {
        std::string why = "columns cannot be read";
        size_t deep = 0;
        if (!matchRow(ls[h + i], 0, s.rows[i], 0, &why, &deep))
            sim::violation("log_row", "row %zu '%s': %s", i, ls[h + i].c_str(),
                           why.c_str());
    }
    // what a failing stream received is the beginning of the same rows
    if (bad.mode != 1)
        return;
    std::istringstream ib(bad.got);
    size_t n = 0;
    while (std::getline(ib, l)) {
        if (ib.eof())
            break; // last line, cut
        if (n >= h) {
            std::string why = "columns cannot be read";
            size_t deep = 0;
            // (durations are those of another logger: only the others)
            Row r = s.rows.at(n - h);
            for (auto& x : r.cols)
                if (x.what[0] == 'T') {
                    x.lo = 0;
                    x.hi = 1e18;
                }
            if (!matchRow(l, 0, r, 0, &why, &deep))
                sim::violation("log_row", "failing stream, row %zu '%s': %s",
                               n - h, l.c_str(), why.c_str());
        }
        n++;
    }
}
