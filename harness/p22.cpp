// P22: programs, lines and environments are what their history of edits and
// mutations says, whatever the other threads do with their own programs.
#include "h.h"
#include <algorithm>
#include <iostream>
#include <thread>
#include "data/array2DWrapper.h"
#include "instructions/addPrimitiveType.h"
#include "instructions/multByConstant.h"
using namespace H;
using Data::Constant;

namespace {
    struct MLine
    {
        uint64_t instr = 0, dest = 0;
        std::vector<std::pair<uint64_t, uint64_t>> ops;
        bool intron = false;
        bool same(const MLine& o) const
        {
            return instr == o.instr && dest == o.dest && ops == o.ops;
        }
        bool operator==(const MLine& o) const
        {
            return same(o) && intron == o.intron;
        }
    };
    struct Model
    {
        std::vector<MLine> lines;
        std::vector<int32_t> cst;
    };

    // a source of data, with what it holds
    struct Src
    {
        int kind; // 0: doubles, 1: integers, 2: 2D doubles
        int n, w, h;
        std::vector<double> v;
        std::unique_ptr<Data::DataHandler> own;
        std::vector<double> ext;
        explicit Src(sim::Rng& r)
        {
            kind = (int)r.below(3);
            w = 1 + (int)r.below(5);
            h = 1 + (int)r.below(4);
            n = kind == 2 ? w * h : 1 + (int)r.below(9);
            for (int i = 0; i < n; i++)
                v.push_back(kind == 1 ? (double)((int)r.below(60) - 30)
                                      : (double)((int)r.below(4001) - 2000) /
                                            64);
            bool wrap = r.below(2);
            if (kind == 1) {
                auto* a = new Data::PrimitiveTypeArray<int>(n);
                own.reset(a);
                for (int i = 0; i < n; i++)
                    a->setDataAt(typeid(int), i, (int)v[i]);
            }
            else if (wrap) {
                ext = v;
                if (kind == 0)
                    own.reset(new Data::ArrayWrapper<double>(n, &ext));
                else
                    own.reset(new Data::Array2DWrapper<double>(w, h, &ext));
            }
            else if (kind == 0) {
                auto* a = new Data::PrimitiveTypeArray<double>(n);
                own.reset(a);
                for (int i = 0; i < n; i++)
                    a->setDataAt(typeid(double), i, v[i]);
            }
            else {
                auto* a = new Data::PrimitiveTypeArray2D<double>(w, h);
                own.reset(a);
                for (int i = 0; i < n; i++)
                    a->setDataAt(typeid(double), i, v[i]);
            }
        }
        bool handles(int k) const
        {
            switch (k) {
            case OK_DOUBLE:
                return kind != 1;
            case OK_INT:
                return kind == 1;
            case OK_DARR2:
                return kind == 0 ? n >= 2 : kind == 2 && w >= 2;
            case OK_DARR22:
                return kind == 2 && w >= 2 && h >= 2;
            default:
                return false;
            }
        }
        int fetch(int k, uint64_t loc, double* o) const
        {
            if (k == OK_DOUBLE || k == OK_INT) {
                o[0] = v[loc % (uint64_t)n];
                return 1;
            }
            if (kind == 0) {
                uint64_t a = loc % (uint64_t)(n - 1);
                o[0] = v[a];
                o[1] = v[a + 1];
                return 2;
            }
            uint64_t rows = k == OK_DARR2 ? h : h - 1;
            uint64_t a = loc % (rows * (uint64_t)(w - 1));
            uint64_t y = a / (uint64_t)(w - 1), x = a % (uint64_t)(w - 1);
            o[0] = v[y * w + x];
            o[1] = v[y * w + x + 1];
            if (k == OK_DARR2)
                return 2;
            o[2] = v[(y + 1) * w + x];
            o[3] = v[(y + 1) * w + x + 1];
            return 4;
        }
    };

    // an environment, with what it must offer
    struct Env
    {
        std::unique_ptr<ISet> is;
        std::vector<std::unique_ptr<Instructions::Instruction>> odd;
        Instructions::Set set;
        std::vector<const InstrInfo*> usable;
        std::vector<std::unique_ptr<Src>> src;
        std::vector<std::reference_wrapper<const Data::DataHandler>> handlers;
        size_t nbReg = 0, nbCst = 0, maxOps = 0, largest = 0, nbSrc = 0;
        std::unique_ptr<const Environment> env;

        bool handles(size_t s, int kind) const
        {
            if (s == 0)
                return nbReg && (kind == OK_DOUBLE ||
                                 (kind == OK_DARR2 && nbReg >= 2));
            if (nbCst && s == 1)
                return kind == OK_CONST;
            s -= nbCst ? 2 : 1;
            return s < src.size() && src[s]->handles(kind);
        }
        bool valid() const
        {
            return nbReg && usable.size() > 1 && nbSrc > 1;
        }
        void draw(sim::Rng& r, bool extreme)
        {
            is = makeISet((int)(r.below(64) | 1));
            // those of the library
            auto put = [&](const char* n, Instructions::Instruction* i,
                           std::vector<OperandKind> ops,
                           double (*ev)(const double*)) {
                is->owned.emplace_back(i);
                is->infos.push_back({n, i, ops, ev});
            };
            auto sum = [](const double* v) { return v[0] + v[1]; };
            auto product = [](const double* v) { return v[0] * v[1]; };
            using namespace Instructions;
            if (r.below(2))
                put("addd", new AddPrimitiveType<double>(),
                    {OK_DOUBLE, OK_DOUBLE}, sum);
            if (r.below(2))
                put("addn", new AddPrimitiveType<int>(), {OK_INT, OK_INT}, sum);
            if (r.below(2))
                put("muld", new MultByConstant<double>(),
                    {OK_DOUBLE, OK_CONST}, product);
            if (r.below(2))
                put("muln", new MultByConstant<int>(), {OK_INT, OK_CONST},
                    product);
            size_t n = extreme ? r.below(3) : 1 + r.below(3);
            for (size_t i = 0; i < n; i++)
                src.emplace_back(new Src(r));
            for (auto& s : src)
                handlers.push_back(*s->own);
            nbReg = extreme ? r.below(3) : 1 + r.below(8);
            nbCst = r.below(2) ? 0 : 1 + r.below(6);
            nbSrc = 1 + (nbCst > 0) + src.size();
            std::vector<const InstrInfo*> order;
            for (auto& i : is->infos)
                order.push_back(&i);
            for (size_t i = order.size(); i > 1; i--)
                std::swap(order[i - 1], order[r.below(i)]);
            if (extreme)
                order.resize(std::min<size_t>(order.size(), r.below(4)));
            for (auto* i : order) {
                if (!r.below(5)) {
                    // operands of a type that nothing provides
                    odd.emplace_back(
                        new Instructions::LambdaInstruction<double, char>(
                            [](double a, char b) { return a + b; }));
                    set.add(*odd.back());
                }
                set.add(*i->instr);
                bool ok = true;
                for (auto k : i->ops) {
                    bool any = false;
                    for (size_t s = 0; s < nbSrc; s++)
                        any = any || handles(s, k);
                    ok = ok && any;
                }
                if (ok) {
                    usable.push_back(i);
                    maxOps = std::max(maxOps, i->ops.size());
                }
            }
            largest = std::max(nbReg, nbCst);
            for (auto& s : src)
                largest = std::max(largest, (size_t)s->n);
        }
        static size_t bits(size_t n)
        {
            size_t b = 0;
            while (((size_t)1 << b) < n)
                b++;
            return b;
        }
        void check(const char* what) const
        {
            auto& e = *env;
            auto same = [&](const char* n, size_t got, size_t want) {
                if (got != want)
                    sim::violation("environment",
                                   "%s %s of %s is %zu instead of %zu", n,
                                   "of the environment", what, got, want);
            };
            same("number of registers", e.getNbRegisters(), nbReg);
            same("number of constants", e.getNbConstant(), nbCst);
            same("number of instructions", e.getNbInstructions(),
                 usable.size());
            same("size of the instruction set",
                 e.getInstructionSet().getNbInstructions(), usable.size());
            for (size_t i = 0; i < usable.size(); i++)
                if (&e.getInstructionSet().getInstruction(i) !=
                    usable[i]->instr)
                    sim::violation("environment",
                                   "instruction %zu of %s is not the one of "
                                   "the set",
                                   i, what);
            same("number of operands", e.getMaxNbOperands(), maxOps);
            same("number of sources", e.getNbDataSources(), nbSrc);
            same("largest address space", e.getLargestAddressSpace(), largest);
            same("number of given sources", e.getDataSources().size(),
                 src.size());
            for (size_t i = 0; i < src.size(); i++)
                if (&e.getDataSources()[i].get() != src[i]->own.get())
                    sim::violation("environment", "source %zu of %s", i, what);
            same("number of all sources", e.getFakeDataSources().size(),
                 nbSrc);
            auto& regs = e.getFakeDataSources().at(0).get();
            same("space of registers", regs.getAddressSpace(typeid(double)),
                 nbReg);
            if (nbCst)
                same("space of constants",
                     e.getFakeDataSources().at(1).get().getAddressSpace(
                         typeid(Constant)),
                     nbCst);
            for (size_t i = 0; i < src.size(); i++)
                if (&e.getFakeDataSources()[i + (nbCst ? 2 : 1)].get() !=
                    src[i]->own.get())
                    sim::violation("environment", "source %zu of %s", i, what);
            auto& l = e.getLineSize();
            same("bits of the source of an operand",
                 l.nbOperandDataSourceIndexBits, bits(nbSrc));
            same("bits of the location of an operand",
                 l.nbOperandLocationBits, bits(largest));
            same("bits of the operands", l.nbOperandsBits,
                 maxOps * (bits(nbSrc) + bits(largest)));
            same("bits of a line", (size_t)l,
                 bits(nbReg) + bits(usable.size()) +
                     maxOps * (bits(nbSrc) + bits(largest)));
        }
        // build the Environment; false when refused
        bool build(sim::Rng& r)
        {
            std::unique_ptr<Environment> e;
            bool refused = false;
            try {
                e.reset(new Environment(set, handlers, nbReg, nbCst));
            }
            catch (std::domain_error&) {
                refused = true;
            }
            if (refused == valid())
                sim::violation("environment",
                               "an environment of %zu registers, %zu sources "
                               "and %zu instructions is %s",
                               nbReg, nbSrc, usable.size(),
                               refused ? "refused" : "accepted");
            if (refused)
                return false;
            env = std::move(e);
            check("an environment");
            if (r.below(2)) {
                // a copy outlives its source
                std::unique_ptr<const Environment> cp(new Environment(*env));
                env = std::move(cp);
                check("a copy whose source was destroyed");
                sim::probe("environment_copies");
            }
            return true;
        }

        // ---- model of the programs
        bool executable(const MLine& l) const
        {
            if (l.instr >= usable.size() || l.dest >= nbReg)
                return false;
            auto& ops = usable[l.instr]->ops;
            for (size_t k = 0; k < maxOps; k++) {
                if (l.ops[k].first >= nbSrc || l.ops[k].second >= largest)
                    return false;
                if (k < ops.size() && !handles(l.ops[k].first, ops[k]))
                    return false;
            }
            return true;
        }
        bool executable(const Model& m) const
        {
            for (auto& l : m.lines)
                if (!executable(l))
                    return false;
            return true;
        }
        std::vector<bool> introns(const Model& m) const
        {
            std::vector<bool> res(m.lines.size());
            std::set<size_t> useful{0};
            for (size_t i = m.lines.size(); i-- > 0;) {
                auto& l = m.lines[i];
                res[i] = !useful.count(l.dest);
                if (res[i])
                    continue;
                useful.erase(l.dest);
                auto& ops = usable[l.instr]->ops;
                for (size_t k = 0; k < ops.size(); k++) {
                    if (l.ops[k].first != 0)
                        continue;
                    uint64_t loc = l.ops[k].second;
                    if (ops[k] == OK_DOUBLE)
                        useful.insert(loc % nbReg);
                    else {
                        useful.insert(loc % (nbReg - 1));
                        useful.insert(loc % (nbReg - 1) + 1);
                    }
                }
            }
            return res;
        }
        // 0: ok, 1: a line that designates nothing was reached
        int run(const Model& m, bool all, bool ignore, double& result) const
        {
            double reg[16] = {0};
            for (auto& l : m.lines) {
                if (l.intron && !all)
                    continue;
                bool bad = l.instr >= usable.size() || l.dest >= nbReg;
                double v[16];
                int n = 0;
                if (!bad) {
                    auto& ops = usable[l.instr]->ops;
                    for (size_t k = 0; k < ops.size() && !bad; k++) {
                        size_t s = l.ops[k].first;
                        uint64_t loc = l.ops[k].second;
                        if (s >= nbSrc)
                            bad = true;
                        else if (s == 0 && ops[k] == OK_DOUBLE)
                            v[n++] = reg[loc % nbReg];
                        else if (s == 0) {
                            v[n++] = reg[loc % (nbReg - 1)];
                            v[n++] = reg[loc % (nbReg - 1) + 1];
                        }
                        else if (nbCst && s == 1)
                            v[n++] = (double)m.cst[loc % nbCst];
                        else
                            n += src[s - (nbCst ? 2 : 1)]->fetch(ops[k], loc,
                                                                 v + n);
                    }
                }
                if (bad) {
                    if (!ignore)
                        return 1;
                    continue;
                }
                reg[l.dest] = usable[l.instr]->eval(v);
            }
            result = reg[0];
            return 0;
        }
        bool identical(const Model& a, const Model& b) const
        {
            std::vector<const MLine*> x, y;
            for (auto& l : a.lines)
                if (!l.intron)
                    x.push_back(&l);
            for (auto& l : b.lines)
                if (!l.intron)
                    y.push_back(&l);
            if (x.size() != y.size())
                return false;
            for (size_t i = 0; i < x.size(); i++) {
                if (!x[i]->same(*y[i]))
                    return false;
                if (!nbCst)
                    continue;
                for (size_t k = 0; k < usable[x[i]->instr]->ops.size(); k++)
                    if (x[i]->ops[k].first == 1) {
                        uint64_t c = x[i]->ops[k].second % nbCst;
                        if (a.cst[c] != b.cst[c])
                            return false;
                    }
            }
            return true;
        }
        MLine line(sim::Rng& r) const
        {
            MLine l;
            l.instr = r.below(usable.size());
            l.dest = r.below(3) ? r.below(std::min<size_t>(nbReg, 2))
                                : r.below(nbReg);
            for (size_t k = 0; k < maxOps; k++) {
                uint64_t s;
                do
                    s = r.below(nbSrc);
                while (k < usable[l.instr]->ops.size() &&
                       !handles(s, usable[l.instr]->ops[k]));
                l.ops.push_back({s, r.below(largest)});
            }
            return l;
        }
    };

    struct Item
    {
        const Env* e;
        std::unique_ptr<Program::Program> p;
        Model m;
    };

    MLine readLine(const Env& e, const Program::Line& l)
    {
        MLine m;
        m.instr = l.getInstructionIndex();
        m.dest = l.getDestinationIndex();
        for (size_t k = 0; k < e.maxOps; k++)
            m.ops.push_back(l.getOperand(k));
        return m;
    }
    Model read(const Env& e, const Program::Program& p)
    {
        Model m;
        for (size_t i = 0; i < p.getNbLines(); i++) {
            m.lines.push_back(readLine(e, p.getLine(i)));
            m.lines.back().intron = p.isIntron(i);
        }
        for (size_t i = 0; i < e.nbCst; i++)
            m.cst.push_back(p.getConstantAt(i).value);
        return m;
    }
    std::string text(const Model& m)
    {
        std::ostringstream o;
        for (auto& l : m.lines) {
            o << (l.intron ? "(" : "") << l.instr << ">" << l.dest;
            for (auto& k : l.ops)
                o << " " << k.first << ":" << k.second;
            o << (l.intron ? ") " : "; ");
        }
        o << "|";
        for (auto c : m.cst)
            o << " " << c;
        return o.str();
    }

    // the work of one thread on its own programs
    struct Worker
    {
        sim::Rng r;
        const std::vector<std::unique_ptr<Env>>& envs;
        const std::vector<Item>& shared;
        std::vector<Item> pool;
        std::vector<uint64_t> ids;
        uint64_t edits = 0, refusals = 0, runs = 0, badRuns = 0, mutations = 0,
                 comparisons = 0, identical = 0, introns = 0, built = 0, notBuilt = 0;

        Worker(const std::vector<std::unique_ptr<Env>>& e,
               const std::vector<Item>& s)
            : envs(e), shared(s)
        {
        }
        void fail(const char* cls, const char* what, const Model& got,
                  const Model& want)
        {
            sim::violation(cls, "%s: %s instead of %s", what,
                           text(got).c_str(), text(want).c_str());
        }
        void check(const Item& i, const char* what)
        {
            Model g = read(*i.e, *i.p);
            if (g.lines != i.m.lines || g.cst != i.m.cst)
                fail("other_program", what, g, i.m);
            if (&i.p->getEnvironment() != i.e->env.get())
                sim::violation("other_program",
                               "a program has another environment");
        }
        void born(const Program::Program& p)
        {
            if (!ids.empty() && p.getId() <= ids.back())
                sim::violation("id", "a program is given identifier %llu "
                                     "after %llu",
                               (unsigned long long)p.getId(),
                               (unsigned long long)ids.back());
            ids.push_back(p.getId());
        }
        Item fresh()
        {
            Item i;
            i.e = envs[r.below(envs.size())].get();
            i.p.reset(new Program::Program(*i.e->env));
            born(*i.p);
            i.m.cst.assign(i.e->nbCst, 0);
            check(i, "a new program");
            size_t n = r.below(6) ? r.below(12) : 12 + r.below(40);
            for (size_t k = 0; k < n; k++)
                addLine(i, k);
            for (size_t c = 0; c < i.e->nbCst; c++)
                if (r.below(2))
                    setConstant(i, c, (int32_t)r.below(9) - 4);
            return i;
        }
        Item copy(const Item& o)
        {
            Item i;
            i.e = o.e;
            i.p.reset(new Program::Program(*o.p));
            i.m = o.m;
            born(*i.p);
            check(i, "a copy of a program");
            return i;
        }
        void setConstant(Item& i, size_t c, int32_t v)
        {
            i.p->getConstantHandler().setDataAt(typeid(Constant), c,
                                                Constant{v});
            i.m.cst[c] = v;
        }
        void addLine(Item& i, size_t at)
        {
            MLine zero;
            zero.ops.assign(i.e->maxOps, {0, 0});
            auto& l = at == i.m.lines.size() && r.below(2)
                          ? i.p->addNewLine()
                          : i.p->addNewLine(at);
            i.m.lines.insert(i.m.lines.begin() + (long)at, zero);
            if (&l != &i.p->getLine(at))
                sim::violation("other_program",
                               "addNewLine() returns another line");
            if (!r.below(4))
                check(i, "a program with a new line");
            MLine want = i.e->line(r);
            write(i, at, want);
        }
        void write(Item& i, size_t at, const MLine& w)
        {
            auto& l = i.p->getLine(at);
            bool c = r.below(4);
            bool ok = l.setInstructionIndex(w.instr, c);
            ok = l.setDestinationIndex(w.dest, c) && ok;
            for (size_t k = 0; k < w.ops.size(); k++)
                ok = l.setOperand(k, w.ops[k].first, w.ops[k].second, c) && ok;
            if (!ok)
                sim::violation("refused", "a valid value is refused by a line");
            bool in = i.m.lines[at].intron;
            i.m.lines[at] = w;
            i.m.lines[at].intron = in;
            edits++;
        }
        template <class X, class F>
        void refused(Item& i, const char* what, F f)
        {
            refusals++;
            try {
                f();
            }
            catch (X&) {
                check(i, what);
                return;
            }
            sim::violation("accepted", "%s is accepted", what);
        }
        void invalid(Item& i)
        {
            size_t n = i.m.lines.size();
            auto& p = *i.p;
            uint64_t beyond = r.below(2) ? n : n + r.below(1000);
            if (!r.below(8))
                beyond = UINT64_MAX - r.below(2);
            using OOR = std::out_of_range;
            switch (r.below(10)) {
            case 0: {
                uint64_t at = beyond == n ? n + 1 : beyond;
                refused<OOR>(i, "adding a line beyond the end",
                             [&] { p.addNewLine(at); });
                break;
            }
            case 1:
                refused<OOR>(i, "removing a line that does not exist",
                             [&] { p.removeLine(beyond); });
                break;
            case 2:
            case 3: {
                uint64_t a = n ? r.below(n) : beyond, b = beyond;
                if (r.below(2))
                    std::swap(a, b);
                refused<OOR>(i, "swapping a line that does not exist",
                             [&] { p.swapLines(a, b); });
                break;
            }
            case 4:
                refused<OOR>(i, "reading a line that does not exist", [&] {
                    if (r.below(2))
                        p.getLine(beyond);
                    else
                        ((const Program::Program&)p).getLine(beyond);
                });
                break;
            case 5:
                refused<OOR>(i, "the intron flag of a line that does not exist",
                             [&] { p.isIntron(beyond); });
                break;
            default: {
                if (!n)
                    break;
                auto& l = p.getLine(r.below(n));
                uint64_t by = r.below(3) ? 0 : r.below(UINT32_MAX);
                bool got = false;
                const char* what = "";
                switch (r.below(6)) {
                case 0:
                    what = "an instruction that does not exist";
                    got = l.setInstructionIndex(i.e->usable.size() + by);
                    break;
                case 1:
                    what = "a register that does not exist";
                    got = l.setDestinationIndex(i.e->nbReg + by);
                    break;
                case 2:
                    what = "a source that does not exist";
                    got = l.setOperand(r.below(i.e->maxOps),
                                       i.e->nbSrc + by, r.below(i.e->largest));
                    break;
                case 3:
                    what = "a location beyond the largest address space";
                    got = l.setOperand(r.below(i.e->maxOps),
                                       r.below(i.e->nbSrc),
                                       i.e->largest + by);
                    break;
                case 4:
                    refused<std::range_error>(
                        i, "an operand that does not exist",
                        [&] { l.getOperand(i.e->maxOps + by); });
                    return;
                default: {
                    bool c = r.below(2);
                    refused<std::range_error>(
                        i, "writing an operand that does not exist", [&] {
                            l.setOperand(i.e->maxOps + by, 0, 0, c);
                        });
                    return;
                }
                }
                refusals++;
                if (got)
                    sim::violation("accepted", "%s is accepted by a line",
                                   what);
                check(i, what);
            }
            }
        }
        void identify(Item& i)
        {
            auto want = i.e->introns(i.m);
            uint64_t n = 0, got = i.p->identifyIntrons();
            for (size_t k = 0; k < want.size(); k++) {
                i.m.lines[k].intron = want[k];
                n += want[k];
            }
            introns += n;
            if (got != n)
                sim::violation("introns",
                               "%llu introns are announced instead of %llu in "
                               "%s",
                               (unsigned long long)got, (unsigned long long)n,
                               text(i.m).c_str());
            check(i, "a program whose introns were identified");
        }
        void execute(const Item& i)
        {
            runs++;
            std::unique_ptr<Program::ProgramExecutionEngine> eng;
            switch (r.below(3)) {
            case 0:
                eng.reset(new Program::ProgramExecutionEngine(*i.p));
                break;
            case 1:
                eng.reset(new Program::ProgramExecutionEngine(*i.e->env));
                eng->setProgram(*i.p);
                break;
            default:
                // after another program
                eng.reset(new Program::ProgramExecutionEngine(*i.e->env));
                for (auto& o : pool)
                    if (o.e == i.e) {
                        eng->setProgram(*o.p);
                        eng->executeProgram(true);
                        break;
                    }
                eng->setProgram(*i.p);
            }
            bool ignore = r.below(2);
            double want = 0, got = 0;
            int bad = i.e->run(i.m, false, ignore, want), out = 0;
            badRuns += bad;
            for (int k = 0; k < 2; k++) {
                out = 0;
                try {
                    got = eng->executeProgram(ignore);
                }
                catch (std::out_of_range&) {
                    out = 1;
                }
                if (out != bad)
                    sim::violation("execution",
                                   "the execution of %s %s", text(i.m).c_str(),
                                   out ? "throws std::out_of_range"
                                       : "does not throw std::out_of_range");
                if (!out && !sameBits(got, want))
                    sim::violation("execution",
                                   "%s gives %.17g instead of %.17g",
                                   text(i.m).c_str(), got, want);
            }
        }
        // a line that designates nothing, then repaired
        void broken(Item& i)
        {
            if (i.m.lines.empty())
                return;
            size_t at = r.below(i.m.lines.size());
            auto& l = i.p->getLine(at);
            MLine was = i.m.lines[at];
            auto& m = i.m.lines[at];
            bool ok = true;
            switch (r.below(3)) {
            case 0:
                m.instr = i.e->usable.size() + r.below(3);
                ok = l.setInstructionIndex(m.instr, false);
                break;
            case 1:
                m.dest = i.e->nbReg + r.below(3);
                ok = l.setDestinationIndex(m.dest, false);
                break;
            default:
                auto& o = m.ops[r.below(m.ops.size())];
                o.first = i.e->nbSrc + r.below(3);
                o.second = r.below(100);
                ok = l.setOperand((size_t)(&o - &m.ops[0]), o.first, o.second,
                                  false);
            }
            if (!ok)
                sim::violation("refused",
                               "a value that is not to be checked is refused");
            check(i, "a line changed without check");
            execute(i);
            execute(i);
            write(i, at, was);
            check(i, "a repaired line");
        }
        void compare(const Item& a, const Item& b)
        {
            if (a.e != b.e)
                return;
            comparisons++;
            bool want = a.e->identical(a.m, b.m);
            bool got = a.p->hasIdenticalBehavior(*b.p);
            identical += want;
            if (got != want)
                sim::violation("behaviour",
                               "%s and %s are said to have %s behaviour",
                               text(a.m).c_str(), text(b.m).c_str(),
                               got ? "the same" : "another");
            if (a.m.lines.empty() || b.m.lines.empty())
                return;
            size_t x = r.below(a.m.lines.size()), y = r.below(b.m.lines.size());
            if (r.below(2))
                y = std::min(x, b.m.lines.size() - 1);
            bool eq = a.m.lines[x].same(b.m.lines[y]);
            auto& l = ((const Program::Program&)*a.p).getLine(x);
            auto& k = ((const Program::Program&)*b.p).getLine(y);
            if ((l == k) != eq || (l != k) == eq)
                sim::violation("behaviour", "comparison of lines %zu of %s and "
                                            "%zu of %s",
                               x, text(a.m).c_str(), y, text(b.m).c_str());
        }
        // ---- mutations
        // does a part of the line have a single possible value?
        bool stuck(const Env& e, const MLine& l)
        {
            if (e.nbReg == 1)
                return true;
            auto& ops = e.usable[l.instr]->ops;
            for (size_t k = 0; k < ops.size(); k++) {
                int others = 0;
                for (size_t s = 0; s < e.nbSrc; s++)
                    others += s != l.ops[k].first && e.handles(s, ops[k]);
                if (!others)
                    return true;
            }
            return false;
        }
        void altered(const Env& e, const MLine& a, const MLine& b,
                     const char* what)
        {
            auto no = [&](const char* why) {
                Model x, y;
                x.lines = {a};
                y.lines = {b};
                sim::violation("mutation", "%s: %s becomes %s: %s", what,
                               text(x).c_str(), text(y).c_str(), why);
            };
            if (!e.executable(b))
                no("the line is not valid");
            if (a.instr != b.instr) {
                if (a.dest != b.dest)
                    no("instruction and destination changed");
                auto& ops = e.usable[b.instr]->ops;
                for (size_t k = 0; k < e.maxOps; k++) {
                    if (a.ops[k].second != b.ops[k].second)
                        no("instruction and location changed");
                    if (a.ops[k].first != b.ops[k].first &&
                        (k >= ops.size() ||
                         e.handles(a.ops[k].first, ops[k])))
                        no("a source that suits the instruction changed");
                }
                return;
            }
            int n = a.dest != b.dest;
            for (size_t k = 0; k < e.maxOps; k++) {
                n += a.ops[k].first != b.ops[k].first;
                n += a.ops[k].second != b.ops[k].second;
            }
            if (n > 1)
                no("several parts changed");
            if (n)
                return;
            // nothing changed: some part must have had no other value
            if (!stuck(e, a))
                no("nothing changed");
        }
        // could the change of one of the lines have no effect?
        bool excused(const Env& e, const Model& m)
        {
            for (auto& l : m.lines)
                if (stuck(e, l))
                    return true;
            return false;
        }
        bool oneMore(const Model& small, const Model& big)
        {
            if (big.lines.size() != small.lines.size() + 1)
                return false;
            size_t k = 0;
            while (k < small.lines.size() && small.lines[k] == big.lines[k])
                k++;
            for (; k < small.lines.size(); k++)
                if (!(small.lines[k] == big.lines[k + 1]))
                    return false;
            return true;
        }
        bool swapped(const Model& a, const Model& b)
        {
            if (a.lines.size() != b.lines.size())
                return false;
            std::vector<size_t> d;
            for (size_t k = 0; k < a.lines.size(); k++)
                if (!(a.lines[k] == b.lines[k]))
                    d.push_back(k);
            if (d.empty()) { // two lines were the same
                for (size_t k = 0; k < a.lines.size(); k++)
                    for (size_t q = 0; q < k; q++)
                        if (a.lines[k] == a.lines[q])
                            return true;
                return a.lines.size() < 2;
            }
            return (d.size() == 2 && a.lines[d[0]] == b.lines[d[1]] &&
                    a.lines[d[1]] == b.lines[d[0]]);
        }
        void constants(const Item& i, const Model& was, size_t most,
                       const Mutator::MutationParameters& mp)
        {
            size_t n = 0;
            for (size_t c = 0; c < was.cst.size(); c++)
                if (was.cst[c] != i.m.cst[c]) {
                    n++;
                    if (i.m.cst[c] < mp.prog.minConstValue ||
                        i.m.cst[c] > mp.prog.maxConstValue)
                        sim::violation("mutation",
                                       "a constant becomes %d, out of [%d, "
                                       "%d]",
                                       i.m.cst[c], mp.prog.minConstValue,
                                       mp.prog.maxConstValue);
                }
            if (n > most)
                sim::violation("mutation", "%zu constants changed", n);
        }
        void mutate(Item& i)
        {
            using namespace Mutator;
            mutations++;
            auto& e = *i.e;
            auto& p = *i.p;
            uint64_t seed = r.next();
            RNG rng(seed);
            MutationParameters mp;
            mp.prog.maxProgramSize = 1 + r.below(14);
            mp.prog.minConstValue = -(int32_t)r.below(6);
            mp.prog.maxConstValue = (int32_t)r.below(6);
            static const double pr[] = {0, 1, 0.5};
            double* ps[] = {&mp.prog.pDelete, &mp.prog.pAdd, &mp.prog.pMutate,
                            &mp.prog.pSwap, &mp.prog.pConstantMutation};
            int only = (int)r.below(8); // at most one kind of change
            for (int k = 0; k < 5; k++)
                *ps[k] = only < 5 ? (k == only) : pr[r.below(3)];
            Model was = i.m;
            size_t n = was.lines.size();
            int op = (int)r.below(10);
            // the same mutation of a copy, which must give the same
            std::unique_ptr<Program::Program> twin;
            if (!r.below(3)) {
                twin.reset(new Program::Program(p));
                born(*twin);
            }
            auto flags = [&] {
                auto want = e.introns(i.m);
                for (size_t k = 0; k < want.size(); k++)
                    if (want[k] != i.m.lines[k].intron)
                        sim::violation("introns",
                                       "line %zu of %s is wrongly marked "
                                       "after a mutation",
                                       k, text(i.m).c_str());
            };
            // what was, with the introns identified
            auto identified = [&](const Model& m) {
                Model x = m;
                auto want = e.introns(x);
                for (size_t k = 0; k < want.size(); k++)
                    x.lines[k].intron = want[k];
                return x;
            };
            auto strip = [](Model m) {
                for (auto& l : m.lines)
                    l.intron = false;
                return m;
            };
            auto bad = [&](const char* what) {
                fail("mutation", what, i.m, was);
            };
            auto apply = [&](Program::Program& q, RNG& g) -> bool {
                switch (op) {
                case 0:
                    ProgramMutator::initRandomProgram(q, mp, g);
                    return true;
                case 1:
                    return ProgramMutator::deleteRandomLine(q, g);
                case 2:
                    ProgramMutator::insertRandomLine(q, g);
                    return true;
                case 3:
                    return ProgramMutator::swapRandomLines(q, g);
                case 4:
                    return ProgramMutator::alterRandomLine(q, g);
                case 5:
                    return e.nbCst &&
                           ProgramMutator::alterRandomConstant(q, mp, g);
                case 6:
                    if (n)
                        LineMutator::initRandomCorrectLine(q.getLine(n / 2),
                                                           g);
                    return n;
                case 7:
                    if (n)
                        LineMutator::alterCorrectLine(q.getLine(n / 2), g);
                    return n;
                default:
                    return ProgramMutator::mutateProgram(q, mp, g);
                }
            };
            bool got = apply(p, rng);
            i.m = read(e, p);
            if (twin) {
                RNG other(seed);
                bool again = apply(*twin, other);
                Model t = read(e, *twin);
                if (again != got || t.lines != i.m.lines || t.cst != i.m.cst)
                    fail("mutation", "the same mutation of a copy gives "
                                     "another program",
                         t, i.m);
                if (rng.getUnsignedInt64(0, UINT64_MAX) !=
                    other.getUnsignedInt64(0, UINT64_MAX))
                    sim::violation("mutation", "the same mutation of a copy "
                                               "draws other numbers");
            }
            if (!e.executable(i.m))
                bad("a mutation gives a program that is not valid");
            if (op < 8 && op != 0 && op != 5 && was.cst != i.m.cst)
                bad("a mutation of lines changes constants");
            switch (op) {
            case 0:
                if (i.m.lines.empty() ||
                    i.m.lines.size() > mp.prog.maxProgramSize)
                    bad("a random program has a wrong size");
                for (auto c : i.m.cst)
                    if (c < mp.prog.minConstValue || c > mp.prog.maxConstValue)
                        bad("a random program has a wrong constant");
                flags();
                break;
            case 1:
                if (got != (n > 1) || (got && !oneMore(i.m, was)) ||
                    (!got && i.m.lines != was.lines))
                    bad("deletion of a line");
                break;
            case 2:
                if (!oneMore(was, i.m))
                    bad("insertion of a line");
                break;
            case 3:
                if (got != (n > 1) || !swapped(was, i.m))
                    bad("exchange of two lines");
                break;
            case 4: {
                if (got != (n > 0) || i.m.lines.size() != n)
                    bad("change of a line");
                size_t d = 0, kept = 0;
                for (size_t k = 0; k < n; k++) {
                    if (was.lines[k].intron != i.m.lines[k].intron)
                        bad("change of a line");
                    if (was.lines[k].same(i.m.lines[k])) {
                        kept++;
                        continue;
                    }
                    d++;
                    altered(e, was.lines[k], i.m.lines[k], "change of a line");
                }
                if (d > 1)
                    bad("several lines changed");
                if (n && kept == n && !excused(e, was))
                    bad("no line changed");
                break;
            }
            case 5:
                if (i.m.lines != was.lines)
                    bad("change of a constant");
                constants(i, was, 1, mp);
                break;
            case 6:
            case 7:
                for (size_t k = 0; k < n; k++)
                    if (k != n / 2 && !(was.lines[k] == i.m.lines[k]))
                        bad("another line changed");
                if (op == 7 && n)
                    altered(e, was.lines[n / 2], i.m.lines[n / 2],
                            "change of a line");
                break;
            default: {
                if (!got) {
                    if (i.m.lines != was.lines || i.m.cst != was.cst)
                        bad("a program changed without being said mutated");
                }
                else
                    flags();
                constants(i, was, 1, mp);
                size_t s = i.m.lines.size(), mx = mp.prog.maxProgramSize;
                if (s + 1 < n || s > n + 1 || (n && !s) ||
                    (s > n && s > mx))
                    bad("a mutated program has a wrong size");
                if (only >= 5)
                    break;
                bool exp = only == 0   ? n > 1
                           : only == 1 ? n < mx
                           : only == 4 ? e.nbCst > 0
                                       : true;
                if (got != exp)
                    bad(got ? "a mutation that is not asked"
                            : "a mutation that is asked is not made");
                if (!got)
                    break;
                if (only != 4 && i.m.cst != was.cst)
                    bad("constants changed");
                Model a = strip(was), b = strip(i.m);
                size_t d = 0;
                switch (only) {
                case 0:
                    if (!oneMore(b, a))
                        bad("deletion of a line");
                    break;
                case 1:
                    if (!oneMore(a, b))
                        bad("insertion of a line");
                    break;
                case 2:
                    if (a.lines.size() != b.lines.size())
                        bad("change of a line");
                    for (size_t k = 0; k < n; k++)
                        if (!a.lines[k].same(b.lines[k])) {
                            d++;
                            altered(e, a.lines[k], b.lines[k],
                                    "change of a line");
                        }
                    if (d > 1)
                        bad("several lines changed");
                    if (n && !d && !excused(e, was))
                        bad("no line changed");
                    break;
                case 3:
                    if (!swapped(a, b))
                        bad("exchange of two lines");
                    break;
                default:
                    if (i.m.lines != identified(was).lines)
                        bad("change of a constant");
                }
            }
            }
            check(i, "a mutated program");
        }
        void step()
        {
            if (pool.empty() || (pool.size() < 6 && !r.below(8))) {
                pool.push_back(fresh());
                return;
            }
            size_t k = r.below(pool.size());
            Item& i = pool[k];
            size_t n = i.m.lines.size();
            switch (r.below(16)) {
            case 0:
                if (n < 60)
                    addLine(i, r.below(n + 1));
                break;
            case 1:
                if (n) {
                    size_t at = r.below(n);
                    i.p->removeLine(at);
                    i.m.lines.erase(i.m.lines.begin() + (long)at);
                }
                break;
            case 2:
                if (n) {
                    size_t a = r.below(n), b = r.below(n);
                    i.p->swapLines(a, b);
                    std::swap(i.m.lines[a], i.m.lines[b]);
                }
                break;
            case 3:
                if (n)
                    write(i, r.below(n), i.e->line(r));
                break;
            case 4:
                if (i.e->nbCst)
                    setConstant(i, r.below(i.e->nbCst),
                                (int32_t)r.below(9) - 4);
                break;
            case 5:
                invalid(i);
                break;
            case 6:
            case 7: {
                identify(i);
                if (r.below(2))
                    break;
                double a = 0, b = 0;
                i.e->run(i.m, true, false, a);
                i.e->run(i.m, false, false, b);
                if (!sameBits(a, b))
                    sim::violation("introns",
                                   "skipping the introns of %s changes its "
                                   "result",
                                   text(i.m).c_str());
                if (r.below(2)) {
                    i.p->clearIntrons();
                    auto& v = i.m.lines;
                    v.erase(std::remove_if(v.begin(), v.end(),
                                           [](const MLine& l) {
                                               return l.intron;
                                           }),
                            v.end());
                    check(i, "a program without its introns");
                    execute(i);
                }
                break;
            }
            case 8: {
                const Item& o = !shared.empty() && r.below(2)
                                    ? shared[r.below(shared.size())]
                                    : i;
                Item c = copy(o);
                if (r.below(2)) {
                    // differs by little
                    compare(c, o);
                    size_t m = c.m.lines.size();
                    if (m && r.below(2)) {
                        size_t at = r.below(m);
                        MLine l = c.m.lines[at], x = c.e->line(r);
                        size_t q = r.below(c.e->maxOps);
                        if (r.below(2))
                            l.ops[q].second = x.ops[q].second;
                        else
                            l.dest = x.dest;
                        write(c, at, l);
                    }
                    else if (c.e->nbCst)
                        setConstant(c, r.below(c.e->nbCst),
                                    (int32_t)r.below(9) - 4);
                    if (r.below(2))
                        identify(c);
                    compare(c, o);
                    compare(o, c);
                }
                if (pool.size() < 8)
                    pool.push_back(std::move(c));
                break;
            }
            case 9:
                if (r.below(2) && !shared.empty())
                    compare(i, shared[r.below(shared.size())]);
                else
                    compare(i, pool[r.below(pool.size())]);
                break;
            case 10:
                broken(i);
                break;
            case 11:
                if (!shared.empty()) {
                    auto& s = shared[r.below(shared.size())];
                    execute(s);
                    check(s, "a program shared by the threads");
                }
                break;
            case 12:
                execute(i);
                break;
            case 13:
                if (r.below(2))
                    pool.erase(pool.begin() + (long)k);
                else {
                    Env e;
                    e.draw(r, r.below(3));
                    built++;
                    if (!e.build(r))
                        notBuilt++;
                }
                break;
            default:
                for (size_t q = 1 + r.below(5); q; q--)
                    mutate(i);
            }
            if (!pool.empty())
                check(pool[r.below(pool.size())], "after an edit");
        }
        void work(int steps)
        {
            for (int i = 0; i < steps; i++)
                step();
            for (auto& i : pool) {
                check(i, "at the end");
                execute(i);
            }
            pool.clear();
        }
    };

    void scenario(int nt, int steps, uint64_t seed)
    {
        sim::Rng r;
        r.seed(seed);
        std::vector<std::unique_ptr<Env>> envs;
        size_t n = 1 + r.below(2);
        for (int tries = 0; envs.size() < n && tries < 200; tries++) {
            std::unique_ptr<Env> e(new Env);
            bool extreme = !r.below(4);
            e->draw(r, extreme);
            if (e->build(r))
                envs.push_back(std::move(e));
            else
                sim::probe("environments_refused");
        }
        for (size_t k = r.below(8); k; k--) {
            Env e;
            e.draw(r, true);
            if (!e.build(r))
                sim::probe("environments_refused");
        }
        std::vector<Item> shared, none;
        Worker maker(envs, none);
        maker.r.seed(r.next());
        for (size_t i = 0; i < 3; i++)
            shared.push_back(maker.fresh());
        std::vector<std::unique_ptr<Worker>> ws;
        for (int t = 0; t < nt; t++) {
            ws.emplace_back(new Worker(envs, shared));
            ws.back()->r.seed(r.next());
        }
        std::vector<std::thread> th;
        for (int t = 1; t < nt; t++)
            th.emplace_back([&, t] { ws[t]->work(steps); });
        ws[0]->work(steps);
        for (auto& t : th)
            t.join();
        std::set<uint64_t> ids(maker.ids.begin(), maker.ids.end());
        size_t total = maker.ids.size();
        for (auto& w : ws) {
            ids.insert(w->ids.begin(), w->ids.end());
            total += w->ids.size();
            sim::probe("edits", w->edits);
            sim::probe("refusals", w->refusals);
            sim::probe("executions", w->runs);
            sim::probe("executions_that_throw", w->badRuns);
            sim::probe("mutations", w->mutations);
            sim::probe("comparisons", w->comparisons);
            sim::probe("identical_behaviours", w->identical);
            sim::probe("introns", w->introns);
            sim::probe("environments_built_in_threads", w->built);
            sim::probe("environments_refused", w->notBuilt);
        }
        if (ids.size() != total)
            sim::violation("id", "two programs have the same identifier");
        for (auto& i : shared)
            maker.check(i, "a program shared by the threads");
        for (auto& e : envs)
            e->check("an environment that was used");
        sim::stateHash(total * 1000003 + ids.size());
    }
} // namespace

PROP(P22)
{
    drawHeap();
    sim::raceDetection(true);
    drawSchedule();
    int nt = (int)knob("threads", 1, 4);
    int steps = (int)knob("steps", 5, nt > 2 ? 50 : 90);
    uint64_t seed = sim::workRng().next();
    // an environment says which instructions it leaves out
    std::cout.rdbuf(nullptr);
    uint64_t base = sim::liveBlocks();
    scenario(nt, steps, seed);
    if (sim::liveBlocks() != base && sim::step() < 3000000) {
        // lazily created statics are created once: repeat
        scenario(nt, steps, seed);
        uint64_t b1 = sim::liveBlocks(), last = b1;
        bool grows = true;
        for (int i = 0; i < 2 && grows; i++) {
            scenario(nt, steps, seed);
            grows = sim::liveBlocks() > last;
            last = sim::liveBlocks();
        }
        if (grows)
            sim::violation("leak",
                           "%llu blocks are not released by 2 repetitions of "
                           "a history of programs",
                           (unsigned long long)(last - b1));
    }
}
