// P19: data handlers give exactly the data that was written, whatever the
// history of writes, copies and assignments and whoever reads.
#include "h.h"
#include <cfloat>
#include <thread>
#include "data/array2DWrapper.h"
#include "data/constantHandler.h"
#include "data/pointerWrapper.h"
using namespace H;
using Data::Constant;
using Data::DataHandler;

namespace {
    size_t reads, rangeReads, hashes, sharedReads, refusals, kept;

    enum Kind
    {
        ARR,
        ARR2,
        WRAP,
        WRAP2,
        PTR,
        CST
    };
    const char* const kindName[] = {"PrimitiveTypeArray",
                                    "PrimitiveTypeArray2D",
                                    "ArrayWrapper",
                                    "Array2DWrapper",
                                    "PointerWrapper",
                                    "ConstantHandler"};
    // A type that may be asked: T, T[w] or T[h][w].
    struct Ask
    {
        const std::type_info* type;
        size_t h, w; // 0, 0: T itself
    };
    template <class T> const std::vector<Ask>& asks()
    {
        static const std::vector<Ask> a = {
            {&typeid(T), 0, 0},
            {&typeid(const T[1]), 1, 1},
            {&typeid(T[2]), 1, 2},
            {&typeid(const T[2]), 1, 2},
            {&typeid(const T[3]), 1, 3},
            {&typeid(const T[4]), 1, 4},
            {&typeid(const T[7]), 1, 7},
            {&typeid(const T[64]), 1, 64},
            {&typeid(const T[2][2]), 2, 2},
            {&typeid(const T[1][3]), 1, 3},
            {&typeid(T[3][1]), 3, 1},
            {&typeid(const T[2][3]), 2, 3},
            {&typeid(const T[3][2]), 3, 2},
            {&typeid(const T[5][5]), 5, 5},
        };
        return a;
    }
    template <class T> T value()
    {
        auto& r = sim::workRng();
        switch (r.below(6)) {
        case 0:
            return T{0};
        case 1:
            return T{1};
        default:
            return T{(T)(int)r.below(256)};
        }
    }
    template <> double value<double>()
    {
        auto& r = sim::workRng();
        static const double odd[] = {NAN,  INFINITY, -INFINITY, -0.0,   0.0,
                                     1e300, 5e-324,   DBL_MAX,   -1e-310, 1.0};
        return r.below(3) ? r.unit() * 8 - 4 : odd[r.below(10)];
    }
    template <> float value<float>()
    {
        return (float)value<double>();
    }
    template <> Constant value<Constant>()
    {
        return Constant{(int32_t)sim::workRng().below(50) - 25};
    }
    template <class T> bool same(const T& a, const T& b)
    {
        return memcmp(&a, &b, sizeof(T)) == 0;
    }
    template <class T> std::string bytes(const std::vector<T>& v)
    {
        std::string s;
        for (T x : v) {
            if constexpr (std::is_floating_point<T>::value)
                if (x == 0)
                    x = 0; // zeros are equal
            s.append((const char*)&x, sizeof x);
        }
        return s;
    }
    // Hashes met so far.
    std::map<std::pair<size_t, std::string>, size_t> hashOf;
    std::map<size_t, std::pair<size_t, std::string>> contentOf;

    struct Any
    {
        virtual ~Any() = default;
        virtual DataHandler& handler() = 0;
        virtual void step() = 0;
        virtual Any* copy() = 0;
        virtual void checkAll() = 0;
        virtual void readSome(uint64_t seed, int n, std::string& err) = 0;
        virtual bool assign(Any& other) = 0;
        virtual const char* name() const = 0;
    };
    template <class T> struct One : Any
    {
        Kind kind;
        size_t w, h, n;
        bool null = false;
        std::vector<T> model;
        std::unique_ptr<DataHandler> p;
        // what wrappers point to; replaced containers are kept alive or freed
        std::shared_ptr<std::vector<T>> ext;
        std::shared_ptr<T> cell;

        const char* name() const override
        {
            return kindName[kind];
        }
        DataHandler& handler() override
        {
            return *p;
        }
        bool twoD() const
        {
            return kind == ARR2 || kind == WRAP2;
        }
        One() = default;
        explicit One(Kind k) : kind(k)
        {
            auto& r = sim::workRng();
            w = 1 + r.below(6);
            h = 1 + r.below(6);
            n = r.below(8) ? 1 + r.below(9) : 60 + r.below(90);
            if (twoD() && !r.below(6)) {
                w = 20;
                h = 7;
            }
            if (twoD())
                n = w * h;
            if (kind == PTR)
                n = 1;
            model.resize(n);
            using namespace Data;
            switch (kind) {
            case ARR:
                p.reset(new PrimitiveTypeArray<T>(n));
                break;
            case ARR2:
                p.reset(new PrimitiveTypeArray2D<T>(w, h));
                break;
            case WRAP:
                p.reset(new ArrayWrapper<T>(n));
                null = true;
                break;
            case WRAP2:
                p.reset(new Array2DWrapper<T>(w, h));
                null = true;
                break;
            case PTR:
                p.reset(new PointerWrapper<T>());
                null = true;
                break;
            case CST:
                if constexpr (std::is_same<T, Constant>::value)
                    p.reset(new ConstantHandler(n));
                else {
                    kind = ARR;
                    p.reset(new PrimitiveTypeArray<T>(n));
                }
                break;
            }
            if (null && r.below(4))
                point();
        }
        void write(size_t i, T v)
        {
            model[i] = v;
            switch (kind) {
            case ARR:
            case CST:
                ((Data::PrimitiveTypeArray<T>&)*p).setDataAt(typeid(T), i, v);
                break;
            case ARR2:
                ((Data::PrimitiveTypeArray2D<T>&)*p).setDataAt(typeid(T), i, v);
                break;
            case WRAP:
            case WRAP2:
                (*ext)[i] = v;
                ((Data::ArrayWrapper<T>&)*p).invalidateCachedHash();
                break;
            case PTR:
                *cell = v;
                break;
            }
        }
        // new content for a wrapper, or none
        void point()
        {
            auto& r = sim::workRng();
            bool none = !r.below(5);
            if (kind == PTR) {
                auto c = std::make_shared<T>(value<T>());
                ((Data::PointerWrapper<T>&)*p).setPointer(none ? nullptr
                                                               : c.get());
                cell = c;
                model[0] = *c;
            }
            else {
                auto& a = (Data::ArrayWrapper<T>&)*p;
                if (!r.below(6)) {
                    std::vector<T> other(r.below(2) ? n + 1 : n - 1);
                    bool refused = false;
                    try {
                        a.setPointer(&other);
                    }
                    catch (std::domain_error&) {
                        refused = true;
                    }
                    if (!refused)
                        sim::violation("accepted",
                                       "%s of %zu elements points to %zu "
                                       "elements",
                                       name(), n, other.size());
                    refusals++;
                    return;
                }
                auto v = std::make_shared<std::vector<T>>(n);
                if (ext && r.below(2))
                    *v = *ext;
                for (size_t i = 0; i < n; i++)
                    if (r.below(3))
                        (*v)[i] = value<T>();
                a.setPointer(none ? nullptr : v.get());
                ext = v;
                model = *v;
            }
            null = none;
        }
        size_t space(const Ask& a) const
        {
            if (!a.h)
                return n;
            if (kind == PTR)
                return 0;
            bool range = a.type->name()[0] == 'A' &&
                         std::string(a.type->name()).find("_A") ==
                             std::string::npos;
            if (!twoD())
                return range && a.w <= n ? n - a.w + 1 : 0;
            return a.w <= w && a.h <= h ? (w - a.w + 1) * (h - a.h + 1) : 0;
        }
        std::vector<size_t> designated(const Ask& a, size_t addr) const
        {
            std::vector<size_t> r;
            if (!a.h)
                r.push_back(addr);
            else if (!twoD())
                for (size_t i = 0; i < a.w; i++)
                    r.push_back(addr + i);
            else {
                size_t cols = w - a.w + 1;
                for (size_t y = 0; y < a.h; y++)
                    for (size_t x = 0; x < a.w; x++)
                        r.push_back((addr / cols + y) * w + addr % cols + x);
            }
            return r;
        }
        // An empty text when the handler answers well.
        std::string ask(const Ask& a, uint64_t raw)
        {
            char b[300];
            size_t s = space(a);
            if (p->getAddressSpace(*a.type) != s ||
                p->canHandle(*a.type) != (s > 0)) {
                snprintf(b, sizeof b,
                         "%s of %zu elements (%zux%zu): address space of type "
                         "%s is %zu instead of %zu",
                         name(), n, twoD() ? w : n, twoD() ? h : 1,
                         a.type->name(), p->getAddressSpace(*a.type), s);
                return b;
            }
            if (!s) {
                if (!p->getAddressesAccessed(*a.type, raw % 5).empty()) {
                    snprintf(b, sizeof b,
                             "%s: addresses are read for type %s that it does "
                             "not handle",
                             name(), a.type->name());
                    return b;
                }
                return "";
            }
            size_t addr = p->scaleLocation(raw, *a.type);
            if (addr != raw % s)
                return std::string(name()) + ": a location is not scaled to "
                                             "the address space";
            auto want = designated(a, addr);
            auto got = p->getAddressesAccessed(*a.type, addr);
            if (got != want) {
                snprintf(b, sizeof b,
                         "%s: address %zu of type %s is said to read %zu "
                         "elements from %zu instead of %zu from %zu",
                         name(), addr, a.type->name(), got.size(),
                         got.empty() ? 0 : got[0], want.size(), want[0]);
                return b;
            }
            if (!p->getAddressesAccessed(*a.type, s).empty())
                return std::string(name()) +
                       ": addresses are read beyond the address space";
            if (null)
                return "";
            auto d = p->getDataAt(*a.type, addr);
            const T* v;
            std::shared_ptr<const T> keep;
            if (a.h)
                keep = d.template getSharedPointer<const T[]>();
            else
                keep = d.template getSharedPointer<const T>();
            v = keep.get();
            for (size_t i = 0; i < want.size(); i++)
                if (!same(v[i], model[want[i]])) {
                    snprintf(b, sizeof b,
                             "%s of %zux%zu: type %s at address %zu: element "
                             "%zu is not element %zu of the data",
                             name(), twoD() ? w : n, twoD() ? h : 1,
                             a.type->name(), addr, i, want[i]);
                    return b;
                }
            return "";
        }
        void readSome(uint64_t seed, int k, std::string& err) override
        {
            sim::Rng r;
            r.seed(seed);
            for (int i = 0; i < k && err.empty(); i++)
                err = ask(asks<T>()[r.below(asks<T>().size())], r.next());
        }
        void checkHash()
        {
            size_t v = p->getHash();
            hashes++;
            if (v != p->getHash())
                sim::violation("hash", "%s: two hashes of the same data",
                               name());
            if (null)
                return;
            sim::OracleScope o;
            auto key = std::make_pair(p->getId(), bytes(model));
            auto it = hashOf.find(key);
            if (it != hashOf.end() && it->second != v)
                sim::violation("hash",
                               "%s of %zu elements: the same data had another "
                               "hash before",
                               name(), n);
            auto jt = contentOf.find(v);
            if (jt != contentOf.end() && jt->second != key)
                sim::violation("hash",
                               "%s of %zu elements has the hash that %s gave",
                               name(), n,
                               jt->second.first == key.first
                                   ? "other data of the same handler"
                                   : "another handler");
            hashOf[key] = v;
            contentOf[v] = key;
        }
        void checkAll() override
        {
            auto& r = sim::workRng();
            if (p->getLargestAddressSpace() != n)
                sim::violation("space", "%s of %zu elements: the largest "
                                        "address space is %zu",
                               name(), n, p->getLargestAddressSpace());
            if (p->getNativeType() != typeid(T))
                sim::violation("type", "%s: other native type", name());
            std::vector<size_t> dim = {n};
            if (twoD())
                dim = {h, w};
            if (p->getDimensionsSize() != dim)
                sim::violation("dimensions", "%s: other dimensions", name());
            static const std::type_info* const foreign[] = {
                &typeid(std::string), &typeid(short), &typeid(const short[2]),
                &typeid(T*), &typeid(const T* const[2])};
            for (auto t : foreign)
                if (p->canHandle(*t) || p->getAddressSpace(*t))
                    sim::violation("type", "%s handles type %s", name(),
                                   t->name());
            bool refused = false;
            try {
                p->scaleLocation(r.next(), typeid(std::string));
            }
            catch (std::domain_error&) {
                refused = true;
            }
            if (!refused)
                sim::violation("accepted",
                               "%s scales a location of a type that it does "
                               "not handle",
                               name());
            if (null) {
                refused = false;
                try {
                    p->getDataAt(typeid(T), 0);
                }
                catch (std::runtime_error&) {
                    refused = true;
                }
                if (!refused)
                    sim::violation("accepted", "%s without data gives data",
                                   name());
                refusals++;
            }
            std::string err;
            readSome(r.next(), 4, err);
            reads += 4;
            if (!err.empty())
                sim::violation("other_data", "%s", err.c_str());
            // single elements
            for (size_t i = 0; i < n && i < 6 && err.empty(); i++)
                err = ask(asks<T>()[0], n <= 6 ? i : r.below(n));
            if (!err.empty())
                sim::violation("other_data", "%s", err.c_str());
            if (r.below(2))
                checkHash();
        }
        void step() override
        {
            auto& r = sim::workRng();
            bool wrapper = kind == WRAP || kind == WRAP2 || kind == PTR;
            switch (r.below(8)) {
            case 0:
                p->resetData();
                if (!wrapper)
                    for (auto& x : model)
                        x = T{0};
                break;
            case 1:
                if (wrapper)
                    point();
                break;
            case 2: { // what was read remains readable
                if (null)
                    break;
                const Ask& a = asks<T>()[1 + r.below(4)];
                if (!space(a))
                    break;
                size_t addr = r.below(space(a));
                auto d = p->getDataAt(*a.type, addr);
                auto was = model;
                auto des = designated(a, addr);
                for (size_t i = 0; i < n; i++)
                    write(i, value<T>());
                auto q = d.template getSharedPointer<const T[]>();
                for (size_t i = 0; i < des.size(); i++)
                    if (!same(q.get()[i], was[des[i]]))
                        sim::violation("other_data",
                                       "%s: an array that was read changes "
                                       "when the data is written",
                                       name());
                kept++;
                break;
            }
            case 3: // two writes that exchange distant elements
                if (!null && n > 1) {
                    size_t a = r.below(n), b = r.below(n);
                    if (n > 64 && r.below(2)) {
                        a = r.below(n - 64);
                        b = a + 64;
                    }
                    T x = model[a], y = model[b];
                    write(a, y);
                    write(b, x);
                }
                break;
            case 4: // the same value written twice
                if (!null && n > 1) {
                    size_t a = r.below(n), b = r.below(n);
                    if (n > 64 && r.below(2)) {
                        a = r.below(n - 64);
                        b = a + 64;
                    }
                    T x = value<T>();
                    write(a, x);
                    write(b, x);
                }
                break;
            default:
                if (!null)
                    for (size_t k = 1 + r.below(3); k; k--)
                        write(r.below(n), value<T>());
            }
        }
        Any* copy() override
        {
            auto* o = new One<T>();
            o->w = w;
            o->h = h;
            o->n = n;
            o->model = model;
            auto& r = sim::workRng();
            int how = (int)r.below(3);
            size_t before = null ? 0 : p->getHash();
            using namespace Data;
            if (how || kind == CST) { // clone
                o->kind = kind == WRAP || kind == PTR || kind == CST ? ARR
                          : kind == WRAP2                            ? ARR2
                                                                     : kind;
                o->p.reset(p->clone());
                if (null)
                    o->model.assign(n, T{0});
            }
            else {
                o->kind = kind;
                o->null = null;
                o->ext = ext;
                o->cell = cell;
                switch (kind) {
                case ARR:
                    o->p.reset(new PrimitiveTypeArray<T>(
                        (PrimitiveTypeArray<T>&)*p));
                    break;
                case ARR2:
                    o->p.reset(new PrimitiveTypeArray2D<T>(
                        (PrimitiveTypeArray2D<T>&)*p));
                    break;
                case WRAP:
                    o->p.reset(new ArrayWrapper<T>((ArrayWrapper<T>&)*p));
                    break;
                case WRAP2:
                    o->p.reset(new Array2DWrapper<T>((Array2DWrapper<T>&)*p));
                    break;
                default:
                    o->p.reset(new PointerWrapper<T>((PointerWrapper<T>&)*p));
                }
                // a copied wrapper shares the data: separate them again
                if (kind == WRAP || kind == WRAP2 || kind == PTR) {
                    o->checkAll();
                    while (o->ext == ext && o->cell == cell)
                        o->point();
                }
            }
            if (o->p->getId() != p->getId())
                sim::violation("id", "a copy of a %s has another identifier",
                               name());
            if (!null && how && o->p->getHash() != before)
                sim::violation("hash", "a clone of a %s has another hash",
                               name());
            return o;
        }
        bool assign(Any& other) override
        {
            auto* o = dynamic_cast<One<T>*>(&other);
            if (!o || (kind != ARR && kind != ARR2) || o->kind != kind)
                return false;
            size_t id = p->getId();
            bool refused = false;
            using namespace Data;
            try {
                if (kind == ARR)
                    (PrimitiveTypeArray<T>&)*p = (PrimitiveTypeArray<T>&)*o->p;
                else
                    (PrimitiveTypeArray2D<T>&)*p =
                        (PrimitiveTypeArray2D<T>&)*o->p;
            }
            catch (std::domain_error&) {
                refused = true;
            }
            if (refused != (n != o->n))
                sim::violation("assign",
                               "assigning %zu elements to a %s of %zu elements "
                               "is %s",
                               o->n, name(), n, refused ? "refused" : "done");
            if (refused)
                refusals++;
            else
                model = o->model;
            if (p->getId() != id)
                sim::violation("id", "an assigned %s changes its identifier",
                               name());
            return true;
        }
    };
    Any* create()
    {
        auto& r = sim::workRng();
        Kind k = (Kind)r.below(6);
        if (k == CST)
            return new One<Constant>(k);
        switch (r.below(7)) {
        case 0:
        case 1:
            return new One<double>(k);
        case 2:
            return new One<int>(k);
        case 3:
            return new One<float>(k);
        case 4:
            return new One<unsigned char>(k);
        case 5:
            return new One<uint64_t>(k);
        default:
            return new One<char>(k);
        }
    }
} // namespace

PROP(P19)
{
    drawSchedule();
    drawHeap();
    auto& r = sim::workRng();
    std::vector<std::unique_ptr<Any>> all;
    std::set<size_t> ids;
    int start = (int)knob("start", 1, 5);
    int steps = (int)knob("steps", 5, 80);
    auto fresh = [&] {
        Any* a = create();
        if (!ids.insert(a->handler().getId()).second)
            sim::violation("id", "two handlers have the same identifier");
        all.emplace_back(a);
    };
    for (int i = 0; i < start; i++)
        fresh();
    int nt = (int)knob("threads", 1, 4);
    for (int i = 0; i < steps; i++) {
        size_t k = r.below(all.size());
        switch (r.below(12)) {
        case 0:
            if (all.size() < 12)
                fresh();
            break;
        case 1:
        case 2:
            if (all.size() < 12)
                all.emplace_back(all[k]->copy());
            break;
        case 3:
            if (all.size() > 1)
                all.erase(all.begin() + k);
            break;
        case 4:
            for (auto& o : all)
                if (all[k]->assign(*o))
                    break;
            break;
        case 5:
            if (nt > 1) {
                // several threads read all handlers
                std::vector<std::thread> th;
                std::vector<std::string> err(nt);
                std::vector<uint64_t> seed(nt);
                for (auto& s : seed)
                    s = r.next();
                for (int t = 0; t < nt; t++)
                    th.emplace_back([&, t] {
                        for (auto& a : all)
                            a->readSome(seed[t], 3, err[t]);
                    });
                for (auto& t : th)
                    t.join();
                for (auto& e : err)
                    if (!e.empty())
                        sim::violation("other_data", "%s, for a thread among "
                                                     "several",
                                       e.c_str());
                sharedReads += nt * all.size() * 3;
            }
            break;
        default:
            all[k]->step();
        }
        size_t q = r.below(all.size());
        all[q]->checkAll();
        if (q != k && k < all.size() && r.below(2))
            all[k]->checkAll();
    }
    for (auto& a : all)
        a->checkAll();
    sim::stateHash(hashOf.size() * 1000003 + reads);
    sim::probe("reads", reads);
    sim::probe("reads_by_several_threads", sharedReads);
    sim::probe("hashes", hashes);
    sim::probe("refusals", refusals);
    sim::probe("arrays_kept", kept);
}
