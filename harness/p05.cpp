// P05: the archive is a faithful bounded record of the last bids.
#include "h.h"
#include "mutator/programMutator.h"
#include <deque>
using namespace H;

namespace {
    // ------------------------------------------------- direct histories
    struct Rec
    {
        int uid;
        std::string data;
        double result;
        const Program::Program* p;
    };
    struct Direct
    {
        sim::Rng r;
        size_t maxSize;
        double prob;
        std::deque<Rec> model;
        int nextUid = 0, count = 0;
        std::vector<Data::PrimitiveTypeArray<double>*> src;
        std::vector<std::reference_wrapper<const Data::DataHandler>> refs;
        std::vector<std::pair<Program::Program*, int>> progs;
        std::set<std::string> seen; // contents, for stale queries
        std::map<std::string, size_t> hashOf;
    };
    void compare(Direct& d, Archive& a, const char* after)
    {
        sim::OracleScope o;
        if (a.getNbRecordings() > d.maxSize)
            sim::violation("archive_size", "%zu recordings, maximum %zu",
                           a.getNbRecordings(), d.maxSize);
        if (a.getNbRecordings() != d.model.size())
            sim::violation("archive_content",
                           "%zu recordings instead of %zu after %s",
                           a.getNbRecordings(), d.model.size(), after);
        std::set<std::string> used;
        for (size_t i = 0; i < d.model.size(); i++) {
            auto& m = d.model[i];
            auto& r = a.at(i);
            used.insert(m.data);
            if (r.prog != m.p || !sameBits(r.result, m.result))
                sim::violation("archive_content",
                               "recording %zu is not the one made, after %s", i,
                               after);
            auto it = a.getDataHandlers().find(r.dataHash);
            if (it == a.getDataHandlers().end())
                sim::violation("archive_data_lost",
                               "recording %zu refers to data that is not "
                               "kept, after %s",
                               i, after);
            if (!a.hasDataHandlers(r.dataHash))
                sim::violation("archive_data_lost",
                               "hasDataHandlers() denies data of recording "
                               "%zu, after %s",
                               i, after);
            std::string c = dumpHandlers(it->second);
            if (c != m.data)
                sim::violation("archive_data_changed",
                               "data of recording %zu is %s instead of %s, "
                               "after %s",
                               i, c.c_str(), m.data.c_str(), after);
        }
        if (a.getNbDataHandlers() != used.size())
            sim::violation("archive_data_kept",
                           "%zu sets of data kept, %zu referred to, after %s",
                           a.getNbDataHandlers(), used.size(), after);
        for (auto& h : d.hashOf)
            if (a.hasDataHandlers(h.second) != (used.count(h.first) != 0))
                sim::violation("archive_data_kept",
                               "hasDataHandlers() is %d for data that %s, "
                               "after %s",
                               (int)a.hasDataHandlers(h.second),
                               used.count(h.first) ? "is referred to"
                                                   : "is not referred to",
                               after);
    }
} // namespace

static void direct()
{
    static Direct d;
    d.r.seed((uint64_t)knob("historySeed", 0, 1000000000));
    d.maxSize = (size_t)knob("maxSize", 1, 12);
    static const double pr[] = {1.0, 0.5, 0.1, 0.9};
    d.prob = pickOf("prob", pr);
    int nsrc = (int)knob("nbSources", 1, 3);
    int n = (int)knob("nbValues", 1, 3);
    int levels = (int)knob("dataValues", 2, 4);
    int maxProgs = (int)knob("nbPrograms", 1, 5);
    int ops = (int)knob("nbOps", 5, 250);
    drawHeap();
    auto is = makeISet(1);
    for (int i = 0; i < nsrc; i++) {
        d.src.push_back(new Data::PrimitiveTypeArray<double>(n));
        d.refs.push_back(*d.src.back());
    }
    Environment env(is->set, d.refs, 4, 0);
    Archive* a = new Archive(d.maxSize, d.prob, d.r.next());
    auto newProg = [&] {
        auto p = new Program::Program(env);
        d.progs.push_back({p, d.nextUid++});
    };
    newProg();
    for (int op = 0; op < ops; op++) {
        const char* what = "";
        switch (d.r.below(12)) {
        case 0:
        case 1:
        case 2:
        case 3:
        case 4: {
            what = "addRecording";
            auto& p = d.progs[d.r.below(d.progs.size())];
            double res = (double)d.r.below(4) + 1e-12 * ++d.count;
            if (d.r.chance(0.05))
                res = -INFINITY;
            bool forced = d.r.chance(0.2);
            size_t before = a->getNbRecordings();
            const Program::Program* lastP =
                before ? a->at(before - 1).prog : nullptr;
            double lastR = before ? a->at(before - 1).result : 0;
            bool rep = before && lastP == p.first && lastR == res;
            a->addRecording(p.first, d.refs, res, forced);
            size_t after = a->getNbRecordings();
            bool in = after == before + 1 ||
                      (after == before && after > 0 &&
                       a->at(after - 1).prog == p.first &&
                       a->at(after - 1).result == res);
            if ((forced || d.prob == 1.0) && !in)
                sim::violation("recording_refused",
                               "a %s recording was not kept",
                               forced ? "forced" : "certain");
            if (rep && !forced && d.prob != 1.0 && after == before) {
                // two identical recordings in a row: cannot tell
                sim::probe("ambiguous_acceptance");
                return;
            }
            sim::event("add uid %d accepted %d", p.second, (int)in);
            if (in) {
                sim::OracleScope o;
                d.model.push_back(
                    {p.second, dumpHandlers(d.refs), res, p.first});
                while (d.model.size() > d.maxSize)
                    d.model.pop_front();
                d.hashOf[d.model.back().data] = Archive::getCombinedHash(d.refs);
                if (d.hashOf.size() > 60)
                    d.hashOf.clear();
            }
            break;
        }
        case 5:
        case 6: {
            what = "a change of the data";
            auto s = d.src[d.r.below(d.src.size())];
            s->setDataAt(typeid(double), d.r.below(n),
                         (double)d.r.below(levels));
            break;
        }
        case 7: {
            what = "an exchange of two sources";
            auto x = d.src[d.r.below(d.src.size())],
                 y = d.src[d.r.below(d.src.size())];
            for (int i = 0; i < n; i++) {
                double u = *x->getDataAt(typeid(double), i)
                                .getSharedPointer<const double>();
                double v = *y->getDataAt(typeid(double), i)
                                .getSharedPointer<const double>();
                x->setDataAt(typeid(double), i, v);
                y->setDataAt(typeid(double), i, u);
            }
            break;
        }
        case 8:
            what = "a program replacement";
            if ((int)d.progs.size() < maxProgs)
                newProg();
            else {
                size_t k = d.r.below(d.progs.size());
                delete d.progs[k].first;
                d.progs.erase(d.progs.begin() + k);
                newProg();
            }
            break;
        case 9:
            what = "setRandomSeed";
            a->setRandomSeed(d.r.next());
            break;
        case 10:
            what = "clear";
            if (d.r.chance(0.15)) {
                a->clear();
                d.model.clear();
            }
            break;
        default: {
            what = "areProgramResultsUnique";
            std::map<size_t, double> q;
            std::map<std::string, double> mq;
            double tau = d.r.chance(0.5) ? 1e-4 : 0.25 * (double)d.r.below(6);
            {
                sim::OracleScope o;
                for (auto& h : a->getDataHandlers())
                    if (d.r.chance(0.6)) {
                        double v = (double)d.r.below(4);
                        if (d.r.chance(0.3))
                            v += 0.5;
                        q[h.first] = v;
                        mq[dumpHandlers(h.second)] = v;
                    }
            }
            bool got = d.r.chance(0.5) && tau == 1e-4
                           ? a->areProgramResultsUnique(q)
                           : a->areProgramResultsUnique(q, tau);
            sim::OracleScope o;
            std::map<int, int> st; // uid: 1 all within, 2 some not
            for (auto& m : d.model) {
                auto it = mq.find(m.data);
                if (it == mq.end())
                    continue;
                bool in = std::abs(it->second - m.result) <= tau;
                int& s = st[m.uid];
                s = s == 2 ? 2 : in ? 1 : 2;
            }
            bool uniq = true;
            for (auto& s : st)
                if (s.second == 1)
                    uniq = false;
            sim::probe(uniq ? "answer_unique" : "answer_not_unique");
            if (got != uniq)
                sim::violation("uniqueness",
                               "areProgramResultsUnique() answers %d where "
                               "the recordings say %d",
                               (int)got, (int)uniq);
        }
        }
        compare(d, *a, what);
    }
    {
        sim::OracleScope o;
        std::string s;
        for (auto& m : d.model)
            s += m.data + bits(m.result);
        sim::stateHash(fnv(s));
    }
    for (auto& p : d.progs)
        delete p.first;
    delete a;
    for (auto s : d.src)
        delete s;
    d.refs.clear();
}

namespace {
    struct Bid
    {
        const Program::Program* p;
        double v;
        int data;
    };
    struct Train
    {
        Cfg c;
        World* w;
        std::vector<std::string> datas;
        std::map<std::string, int> dataIdx;
        std::map<int, int> jobOfTid;       // thread -> job
        std::vector<std::vector<Bid>> jobs; // in evaluation order
        std::vector<const Learn::Job*> cur;
        std::map<int, const Learn::Job*> jobPtr;
        bool parallel;
        std::vector<std::pair<std::string, double>> old; // previous archive
    };
} // namespace

static void training()
{
    static Train s;
    static Sink sink;
    static JobObs jo;
    s.c = drawCfg(1 << AK_LEARN | 1 << AK_PAR | 1 << AK_CLASS |
                      1 << AK_CLASS_SEQ | 1 << AK_ADV,
                  3);
    Cfg& c = s.c;
    if (flip("certain", 45))
        c.p.archivingProbability = 1.0;
    c.p.archiveSize = (size_t)knob("archiveSizeWide", 1, 120);
    bool threads = flip("threads", 60);
    if (threads)
        setParallelKnobs(c);
    drawHeap();
    sim::raceDetection(false);
    drawSchedule();
    sim::note("agentName", agentName(c.agent));
    World w(c);
    s.w = &w;
    s.parallel = c.agent == AK_ADV ||
                 (c.p.nbThreads > 1 && c.agent != AK_LEARN &&
                  c.agent != AK_CLASS_SEQ);
    Ref ref(*w.is, c.p.nbRegisters, c.p.nbProgramConstant);
    bool off = false;
    sink.keep = false;
    jo.begin = [&](const Learn::Job& j, uint64_t, int mode,
                   Learn::LearningEnvironment&) {
        if (mode != (int)Learn::LearningMode::TRAINING) {
            s.jobOfTid[sim::currentTid()] = -1;
            return;
        }
        int k = s.parallel ? (int)j.getIdx() : (int)s.jobs.size();
        if ((int)s.jobs.size() <= k)
            s.jobs.resize(k + 1);
        s.jobOfTid[sim::currentTid()] = k;
        s.jobPtr[sim::currentTid()] = &j;
    };
    jo.end = [&](const Learn::Job&, uint64_t, int,
                 const std::shared_ptr<Learn::EvaluationResult>&) {
        s.jobOfTid[sim::currentTid()] = -1;
    };
    sink.on = [&](const Call& k, EnvCore* core) {
        if (k.kind != C_ACT || off)
            return;
        auto it = s.jobOfTid.find(sim::currentTid());
        if (it == s.jobOfTid.end() || it->second < 0)
            return;
        const TPG::TPGVertex* root = s.jobPtr[sim::currentTid()]->getRoot();
        if (auto a = dynamic_cast<const Learn::AdversarialJob*>(
                s.jobPtr[sim::currentTid()]))
            root = a->getRoots()[(size_t)core->nbAct % a->getRoots().size()];
        std::vector<std::pair<const Program::Program*, double>> bids;
        ref.path(root, *core, nullptr, nullptr, &bids);
        std::vector<std::reference_wrapper<const Data::DataHandler>> v;
        if (core->c.wrapper)
            v.push_back(*core->wr);
        else
            v.push_back(core->dd);
        if (core->c.nI > 0)
            v.push_back(core->ii);
        if (core->c.w > 0)
            v.push_back(core->d2);
        std::string dump = dumpHandlers(v);
        auto di = s.dataIdx.emplace(dump, (int)s.datas.size());
        if (di.second)
            s.datas.push_back(dump);
        for (auto& b : bids)
            s.jobs[it->second].push_back({b.first, b.second, di.first->second});
    };
    struct NullBuf : std::streambuf
    {
        int overflow(int ch) override
        {
            return ch;
        }
    } nb;
    std::ostream os(&nb);
    Phases ph(*w.agent, os);
    const Archive& ar = w.agent->getArchive();
    auto snapshot = [&] {
        std::vector<std::pair<std::string, double>> v;
        std::map<size_t, std::string> memo;
        for (size_t i = 0; i < ar.getNbRecordings(); i++) {
            auto& r = ar.at(i);
            auto m = memo.find(r.dataHash);
            if (m == memo.end()) {
                auto it = ar.getDataHandlers().find(r.dataHash);
                if (it == ar.getDataHandlers().end())
                    sim::violation("archive_data_lost",
                                   "recording %zu has no data", i);
                m = memo.emplace(r.dataHash, dumpHandlers(it->second)).first;
            }
            v.push_back({m->second, r.result});
        }
        if (memo.size() != ar.getNbDataHandlers())
            sim::violation("archive_data_kept",
                           "%zu sets of data kept, %zu referred to",
                           ar.getNbDataHandlers(), memo.size());
        return v;
    };
    ph.populated = [&] {
        sim::OracleScope o;
        s.jobs.clear();
        s.old = snapshot();
    };
    ph.evaluated = [&](Results&) {
        sim::OracleScope o;
        std::vector<Bid> exp;
        for (auto& j : s.jobs)
            exp.insert(exp.end(), j.begin(), j.end());
        auto got = snapshot();
        size_t n = got.size();
        if (n > c.p.archiveSize)
            sim::violation("archive_size", "%zu recordings, maximum %zu", n,
                           c.p.archiveSize);
        auto same = [&](size_t i, const Bid& b) {
            return ar.at(i).prog == b.p && sameBits(got[i].second, b.v) &&
                   got[i].first == s.datas[b.data];
        };
        std::string st;
        for (auto& g : got)
            st += g.first + bits(g.second);
        sim::stateHash(fnv(st));
        if (c.p.archivingProbability == 1.0) {
            size_t tot = s.old.size() + exp.size();
            size_t want = std::min(tot, c.p.archiveSize);
            if (n != want)
                sim::violation("archive_content",
                               "%zu recordings instead of %zu", n, want);
            for (size_t i = 0; i < n; i++) {
                size_t fromEnd = n - i; // 1: last
                if (fromEnd <= exp.size()) {
                    auto& b = exp[exp.size() - fromEnd];
                    if (!same(i, b))
                        sim::violation(
                            "archive_content",
                            "recording %zu of %zu is %s on %s, the bid made "
                            "was %s on %s%s",
                            i, n, bits(got[i].second).c_str(),
                            got[i].first.c_str(), bits(b.v).c_str(),
                            s.datas[b.data].c_str(),
                            ar.at(i).prog == b.p ? "" : " by another program");
                }
                else {
                    auto& q = s.old[s.old.size() - (fromEnd - exp.size())];
                    if (q.first != got[i].first ||
                        !sameBits(q.second, got[i].second))
                        sim::violation("archive_content",
                                       "recording %zu of %zu was altered", i,
                                       n);
                }
            }
            sim::probe("exact_archive");
        }
        else {
            // for some k, the last k recordings are bids of this generation
            // in order, and the first ones are the last of the former archive
            bool ok = false;
            // how many of the last ones match as a subsequence
            size_t m = 0, pos = exp.size();
            while (m < n) {
                size_t i = n - 1 - m;
                bool f = false;
                while (pos > 0) {
                    pos--;
                    if (same(i, exp[pos])) {
                        f = true;
                        break;
                    }
                }
                if (!f)
                    break;
                m++;
            }
            for (size_t k = 0; k <= m && !ok; k++) {
                size_t rest = n - k;
                if (rest > s.old.size())
                    continue;
                if (rest < s.old.size() && n < c.p.archiveSize)
                    continue; // something was dropped before it was full
                bool eq = true;
                for (size_t i = 0; i < rest && eq; i++) {
                    auto& q = s.old[s.old.size() - rest + i];
                    eq = q.first == got[i].first &&
                         sameBits(q.second, got[i].second);
                }
                ok = eq;
            }
            if (!ok)
                sim::violation("archive_content",
                               "the %zu recordings are not the last of the "
                               "former %zu ones followed by bids of this "
                               "generation in order (%zu match)",
                               n, s.old.size(), m);
            sim::probe("sampled_archive");
        }
    };
    g_sink = &sink;
    g_jobs = &jo;
    w.agent->init(c.seed);
    if (ar.getNbRecordings() || ar.getNbDataHandlers())
        sim::violation("archive_content", "recordings after init()");
    for (int i = 0; i < c.nbGen; i++)
        w.agent->trainOneGeneration((uint64_t)i);
    if (flip("again", 15)) {
        off = true;
        w.agent->init(c.seed + 1);
        if (ar.getNbRecordings() || ar.getNbDataHandlers())
            sim::violation("archive_content", "recordings after init()");
        off = false;
        w.agent->trainOneGeneration(0);
    }
    g_sink = nullptr;
    g_jobs = nullptr;
}

PROP(P05)
{
    if (flip("direct", 40)) {
        sim::raceDetection(false);
        quietSchedule();
        direct();
    }
    else
        training();
}
