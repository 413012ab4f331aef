// Deterministic simulation runtime. Compiled WITHOUT instrumentation.
//
// Supplies the symbols the compiler's thread instrumentation calls (every
// memory access of the code under test becomes a simulated step), and
// interposes threads, locks, the allocator, clocks and file I/O.
#include "sim.h"

#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <linux/futex.h>
#include <new>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <spawn.h>
#include <dirent.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <typeinfo>
#include <unistd.h>

extern "C" void* __libc_malloc(size_t);
extern "C" char _end[];
extern "C" void __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);

namespace sim {

    const char* const faultNames[F_NKINDS] = {
        "short_write",    "short_read",   "eintr",         "eio_write",
        "eio_read",       "enospc",       "open_failure",  "close_failure",
        "crash_torn",     "clock_jump",   "clock_back",    "bad_alloc",
        "thread_stall",   "addr_reuse",   "stream_failure", "env_throw",
        "thread_create_failure", "stop_request"};

    // ------------------------------------------------------------------
    // internal plain containers that never touch the simulated allocator
    template <class T> struct Vec
    {
        T* p = nullptr;
        size_t n = 0, cap = 0;
        void push(const T& v)
        {
            if (n == cap) {
                cap = cap ? cap * 2 : 64;
                p = (T*)__libc_realloc(p, cap * sizeof(T));
            }
            p[n++] = v;
        }
        T& operator[](size_t i)
        {
            return p[i];
        }
        void clear()
        {
            n = 0;
        }
    };

    static inline uint64_t splitmix(uint64_t& x)
    {
        uint64_t z = (x += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    static inline uint64_t rotl(uint64_t x, int k)
    {
        return (x << k) | (x >> (64 - k));
    }
    void Rng::seed(uint64_t x)
    {
        for (int i = 0; i < 4; i++)
            s[i] = splitmix(x);
    }
    uint64_t Rng::next()
    {
        const uint64_t r = rotl(s[1] * 5, 7) * 9;
        const uint64_t t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = rotl(s[3], 45);
        return r;
    }
    uint64_t Rng::below(uint64_t n)
    {
        return n <= 1 ? 0 : next() % n;
    }
    double Rng::unit()
    {
        return (double)(next() >> 11) * (1.0 / 9007199254740992.0);
    }
    bool Rng::chance(double p)
    {
        return p > 0 && unit() < p;
    }

    static inline void mix(uint64_t& h, uint64_t v)
    {
        h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull;
        h ^= h >> 29;
    }

    // ------------------------------------------------------------------
    enum
    {
        MAXT = 32
    };
    static const uint64_t STACK_BASE = 0x300000000000ull;
    static const uint64_t STACK_SIZE = 8ull << 20;
    static const uint64_t ARENA_BASE = 0x200000000000ull;
    static const uint64_t ARENA_SIZE = 6ull << 30;
    static const uint64_t ARENA_CHUNK = 1ull << 16;

    enum TState
    {
        T_FREE = 0,
        T_RUNNABLE,
        T_BLOCKED,
        T_SLEEPING,
        T_FINISHED
    };
    struct Dtor
    {
        void (*fn)(void*);
        void* obj;
    };
    struct Thread
    {
        int state = T_FREE;
        const void* waitOn = nullptr; // address blocked on
        int waitKind = 0;
        bool timedOut = false;
        uint64_t wakeAt = 0; // for sleeping / timed waits, ~0 none
        int futex = 0;
        pthread_t real{};
        void* (*fn)(void*) = nullptr;
        void* arg = nullptr;
        void* ret = nullptr;
        bool detached = false;
        uint32_t vc[MAXT] = {0};
        int prio = 0;
        uint64_t sinceBlock = 0;
        Vec<uint32_t> frames;
        size_t skipAt = 0; // depth at which unobserved code was entered
        Vec<Dtor> dtors;
        bool internal = false;
        int slotGen = 0;
    };

    static bool g_active = false;  // simulation running
    static bool g_multi = false;   // more than one live simulated thread
    static int g_cur = 0;          // running simulated thread
    static int g_live = 0;         // live simulated threads
    static Thread g_t[MAXT];
    static Plan g_plan;
    static Stats g_stats;
    static int g_outFd = -1;
    static int g_oracle = 0; // >0: accounting paused
    static Rng g_work, g_sched, g_heap, g_fault, g_clock;
    static bool g_race = true;
    static int g_nprocs = 8;
    static thread_local int tl_tid = -1; // identity of the real thread

    // trace of decisions taken
    static Vec<SwitchRec> g_switchTrace;
    static size_t g_switchPos = 0;
    static Vec<FaultRec> g_faultTrace;
    static size_t g_faultPos = 0;
    static uint64_t g_faultOp = 0;

    static uint64_t g_nextPreempt = ~0ull;
    static int g_mode = SCHED_RUN;
    static double g_p1 = 0;
    static int g_p2 = 0;
    static int g_victim = -1;
    static Vec<uint64_t> g_changePoints;
    static Faults g_faults;
    static const uint64_t FAIR_LIMIT = 400000;

    struct Probe
    {
        const char* name;
        uint64_t n;
    };
    static Vec<Probe> g_probes;
    struct Note
    {
        char* k;
        char* v;
    };
    static Vec<Note> g_notes;
    static Vec<uint64_t> g_stateHashes;
    static Vec<char> g_log;
    static bool g_keepLog = false;

    Stats& stats()
    {
        return g_stats;
    }
    Rng& workRng()
    {
        return g_work;
    }
    uint64_t step()
    {
        return g_stats.steps;
    }
    int currentTid()
    {
        return g_cur;
    }
    void raceDetection(bool on)
    {
        g_race = on;
    }
    void setNbProcs(int n)
    {
        g_nprocs = n;
    }
    Faults& faults()
    {
        return g_faults;
    }
    void setFaults(const Faults& f)
    {
        g_faults = f;
    }
    OracleScope::OracleScope()
    {
        g_oracle++;
    }
    OracleScope::~OracleScope()
    {
        g_oracle--;
    }

    // ------------------------------------------------------------------
    // output
    static void outWrite(const char* b, size_t n)
    {
        while (n) {
            long r = syscall(SYS_write, g_outFd, b, n);
            if (r <= 0) {
                if (r < 0 && errno == EINTR)
                    continue;
                return;
            }
            b += r;
            n -= r;
        }
    }
    static Vec<char> g_out;
    static void o(const char* fmt, ...)
    {
        char buf[4096];
        va_list ap;
        va_start(ap, fmt);
        int n = vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        if (n > (int)sizeof buf - 1)
            n = sizeof buf - 1;
        for (int i = 0; i < n; i++)
            g_out.push(buf[i]);
    }
    static void oStr(const char* s)
    {
        g_out.push('"');
        for (; *s; s++) {
            unsigned char c = *s;
            if (c == '"' || c == '\\') {
                g_out.push('\\');
                g_out.push(c);
            }
            else if (c == '\n') {
                g_out.push('\\');
                g_out.push('n');
            }
            else if (c < 32 || c > 126) {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", c);
                for (int i = 0; b[i]; i++)
                    g_out.push(b[i]);
            }
            else
                g_out.push(c);
        }
        g_out.push('"');
    }
    static volatile int g_finishing = 0;
    [[noreturn]] static void finish(const char* outcome, const char* cls,
                                    const char* msg)
    {
        if (g_finishing++)
            _exit(99);
        g_active = false;
        g_out.clear();
        o("{\"outcome\":\"%s\",\"cls\":", outcome);
        oStr(cls);
        o(",\"msg\":");
        oStr(msg);
        o(",\"seed\":%llu,\"steps\":%llu,\"switches\":%llu,\"preemptions\":%"
          "llu,\"threads\":%llu,\"maxThreads\":%d,\"mutexOps\":%llu,"
          "\"mutexBlocked\":%llu,\"raceChecks\":%llu,\"allocs\":%llu,"
          "\"reuses\":%llu,\"clockReads\":%llu,\"ioOps\":%llu,\"simNs\":%llu,"
          "\"arena\":%llu,\"schedHash\":\"%016llx\",\"eventHash\":\"%016llx\"",
          (unsigned long long)g_plan.seed, (unsigned long long)g_stats.steps,
          (unsigned long long)g_stats.switches,
          (unsigned long long)g_stats.preemptions,
          (unsigned long long)g_stats.threadsCreated, g_stats.maxThreads,
          (unsigned long long)g_stats.mutexOps,
          (unsigned long long)g_stats.mutexBlocked,
          (unsigned long long)g_stats.raceChecks,
          (unsigned long long)g_stats.allocs,
          (unsigned long long)g_stats.reuses,
          (unsigned long long)g_stats.clockReads,
          (unsigned long long)g_stats.ioOps, (unsigned long long)g_stats.simNs,
          (unsigned long long)g_stats.arenaBytes,
          (unsigned long long)g_stats.schedHash,
          (unsigned long long)g_stats.eventHash);
        o(",\"fired\":{");
        bool first = true;
        for (int i = 0; i < F_NKINDS; i++)
            if (g_stats.fired[i]) {
                o("%s\"%s\":%llu", first ? "" : ",", faultNames[i],
                  (unsigned long long)g_stats.fired[i]);
                first = false;
            }
        o("},\"probes\":{");
        for (size_t i = 0; i < g_probes.n; i++) {
            o("%s", i ? "," : "");
            oStr(g_probes[i].name);
            o(":%llu", (unsigned long long)g_probes[i].n);
        }
        o("},\"notes\":{");
        for (size_t i = 0; i < g_notes.n; i++) {
            o("%s", i ? "," : "");
            oStr(g_notes[i].k);
            o(":");
            oStr(g_notes[i].v);
        }
        o("},\"states\":[");
        for (size_t i = 0; i < g_stateHashes.n; i++)
            o("%s\"%016llx\"", i ? "," : "",
              (unsigned long long)g_stateHashes[i]);
        o("]");
        bool bad = strcmp(outcome, "ok") != 0 && strcmp(outcome, "skip") != 0;
        if (bad || g_keepLog) {
            o(",\"trace\":[");
            for (size_t i = 0; i < g_switchTrace.n; i++)
                o("%s[%llu,%d]", i ? "," : "",
                  (unsigned long long)g_switchTrace[i].step,
                  g_switchTrace[i].tid);
            o("],\"faults\":[");
            for (size_t i = 0; i < g_faultTrace.n; i++)
                o("%s[%llu,%d,%lld]", i ? "," : "",
                  (unsigned long long)g_faultTrace[i].op, g_faultTrace[i].kind,
                  (long long)g_faultTrace[i].arg);
            o("],\"log\":");
            g_log.push('\0');
            oStr(g_log.p);
        }
        o("}\n");
        outWrite(g_out.p, g_out.n);
        _exit(0);
    }

    static void stackOf(int t, char* buf, size_t n)
    {
        size_t pos = 0;
        buf[0] = 0;
        Vec<uint32_t>& f = g_t[t].frames;
        for (size_t i = 0; i < f.n && i < 12 && pos + 16 < n; i++)
            pos += snprintf(buf + pos, n - pos, " @%x", f[f.n - 1 - i]);
    }

    void violation(const char* cls, const char* fmt, ...)
    {
        char buf[3500];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        finish("violation", cls, buf);
    }
    void skip(const char* why)
    {
        finish("skip", "skip", why);
    }
    [[noreturn]] static void simError(const char* fmt, ...)
    {
        char buf[2000];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        finish("simerror", "simerror", buf);
    }

    void event(const char* fmt, ...)
    {
        char buf[1024];
        va_list ap;
        va_start(ap, fmt);
        int n = vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        if (n > (int)sizeof buf - 1)
            n = sizeof buf - 1;
        uint64_t h = 1469598103934665603ull;
        for (int i = 0; i < n; i++)
            h = (h ^ (unsigned char)buf[i]) * 1099511628211ull;
        mix(g_stats.eventHash, h);
        if (g_log.n < 60000) {
            char pre[48];
            int k = snprintf(pre, sizeof pre, "%llu t%d ",
                             (unsigned long long)g_stats.steps, g_cur);
            for (int i = 0; i < k; i++)
                g_log.push(pre[i]);
            for (int i = 0; i < n; i++)
                g_log.push(buf[i]);
            g_log.push('\n');
        }
    }
    void fired(int kind)
    {
        g_stats.fired[kind]++;
        mix(g_stats.eventHash, 0xF000 + kind);
    }
    void probe(const char* name, uint64_t n)
    {
        for (size_t i = 0; i < g_probes.n; i++)
            if (!strcmp(g_probes[i].name, name)) {
                g_probes[i].n += n;
                return;
            }
        g_probes.push({name, n});
    }
    static char* dupInternal(const char* s)
    {
        size_t n = strlen(s) + 1;
        char* p = (char*)__libc_malloc(n);
        memcpy(p, s, n);
        return p;
    }
    void note(const char* key, const std::string& val)
    {
        g_notes.push({dupInternal(key), dupInternal(val.c_str())});
    }
    void stateHash(uint64_t h)
    {
        mix(g_stats.eventHash, h);
        if (g_stateHashes.n < 64)
            g_stateHashes.push(h);
    }

    // ------------------------------------------------------------------
    // fault points: random, or explicit in replay
    static bool faultDecide(int kind, double p, int64_t* arg, int64_t argMax)
    {
        uint64_t op = g_faultOp++;
        if (g_plan.explicitFaults) {
            while (g_faultPos < g_plan.faults.size() &&
                   g_plan.faults[g_faultPos].op < op)
                g_faultPos++;
            if (g_faultPos < g_plan.faults.size() &&
                g_plan.faults[g_faultPos].op == op &&
                g_plan.faults[g_faultPos].kind == kind) {
                if (arg)
                    *arg = g_plan.faults[g_faultPos].arg;
                if (arg && argMax > 0 && *arg > argMax)
                    *arg = argMax;
                g_faultTrace.push({op, kind, arg ? *arg : 0});
                g_stats.fired[kind]++;
                mix(g_stats.eventHash, op * 64 + kind);
                return true;
            }
            return false;
        }
        if (p <= 0 || !g_fault.chance(p))
            return false;
        int64_t a = 0;
        if (argMax > 0)
            a = (int64_t)g_fault.below((uint64_t)argMax + 1);
        if (arg)
            *arg = a;
        g_faultTrace.push({op, kind, a});
        g_stats.fired[kind]++;
        mix(g_stats.eventHash, op * 64 + kind);
        return true;
    }
    bool faultPoint(int kind, double p, int64_t* arg, int64_t argMax)
    {
        return faultDecide(kind, p, arg, argMax);
    }

    // ------------------------------------------------------------------
    // heap
    struct Hdr
    {
        uint32_t magic;
        uint32_t cls;  // size class index
        uint64_t size; // requested size
    };
    static const uint32_t MAGIC_LIVE = 0xA110CA7E, MAGIC_FREE = 0xDEADBEE5;
    static uint8_t* g_hshadow = nullptr; // one byte per 16 bytes of arena
    static uint64_t g_lo = 0, g_hi = 0;  // bump pointers
    static int g_reuse = REUSE_LIFO, g_place = PLACE_ASC;
    static uint64_t g_liveBlocks = 0, g_liveBytes = 0;
    static uint64_t g_allocCount = 0;
    static uint8_t g_fillNew = 0xCD, g_fillFree = 0xDB;
    enum
    {
        NCLS = 160,
        SH_NONE = 0, // never allocated, redzone
        SH_FREED = 0xFD
    };
    struct FreeList
    {
        Vec<uint64_t> v;
        size_t head = 0;
    };
    static FreeList g_free[NCLS];
    static Vec<uint64_t> g_slab[NCLS];

    static inline uint32_t clsOf(size_t n)
    {
        size_t u = (n + 15) / 16;
        if (u == 0)
            u = 1;
        if (u <= 64)
            return (uint32_t)u; // 1..64: exact
        uint32_t c = 65;
        size_t s = 64;
        while (true) {
            // quarter steps
            for (int q = 1; q <= 4; q++) {
                if (u <= s + s * q / 4)
                    return c;
                c++;
            }
            s *= 2;
        }
    }
    static inline size_t clsSize(uint32_t c)
    {
        if (c <= 64)
            return (size_t)c * 16;
        uint32_t k = c - 65;
        size_t s = (size_t)64 << (k / 4);
        return (s + s * (k % 4 + 1) / 4) * 16;
    }
    static inline bool inArena(uint64_t a)
    {
        return a - ARENA_BASE < ARENA_SIZE;
    }
    static inline bool inArenaP(const void* p)
    {
        return inArena((uint64_t)p);
    }

    static uint64_t freshBlock(uint32_t cls)
    {
        size_t total = clsSize(cls) + sizeof(Hdr) + 16;
        if (g_place == PLACE_SHUFFLE && cls <= 64) {
            Vec<uint64_t>& sl = g_slab[cls];
            if (sl.n == 0) {
                bool up = g_heap.next() & 1;
                for (int i = 0; i < 16; i++) {
                    uint64_t a;
                    if (up) {
                        a = g_lo;
                        g_lo += total;
                    }
                    else {
                        g_hi -= total;
                        a = g_hi;
                    }
                    sl.push(a);
                }
                for (int i = 15; i > 0; i--) {
                    int j = (int)g_heap.below(i + 1);
                    uint64_t x = sl[i];
                    sl[i] = sl[j];
                    sl[j] = x;
                }
            }
            return sl[--sl.n];
        }
        bool up = g_place != PLACE_DESC;
        uint64_t a;
        if (up) {
            a = g_lo;
            g_lo += total;
        }
        else {
            g_hi -= total;
            a = g_hi;
        }
        if (g_lo + (64 << 20) > g_hi)
            simError("simulated heap exhausted");
        return a;
    }

    static void shadowResetRange(uint64_t a, size_t n);
    static void raceRange(uint64_t a, size_t n, bool w, uint32_t pc);

    static void* heapAlloc(size_t n)
    {
        // objects of unobserved code (regular expressions): private to the
        // thread, outside of the model
        if (g_t[g_cur].skipAt) {
            g_stats.allocs++;
            return __libc_malloc(n ? n : 1);
        }
        uint32_t cls = clsOf(n);
        FreeList& fl = g_free[cls];
        uint64_t a = 0;
        size_t avail = fl.v.n - fl.head;
        if (avail) {
            bool take = false;
            size_t idx = 0;
            switch (g_reuse) {
            case REUSE_LIFO:
                take = true;
                idx = fl.v.n - 1;
                break;
            case REUSE_FIFO:
                take = avail > 8;
                idx = fl.head;
                break;
            case REUSE_RANDOM:
                take = g_heap.next() & 1;
                if (take)
                    idx = fl.head + g_heap.below(avail);
                break;
            default:
                break;
            }
            if (take) {
                a = fl.v[idx];
                if (idx == fl.head)
                    fl.head++;
                else {
                    fl.v[idx] = fl.v[fl.v.n - 1];
                    fl.v.n--;
                }
                if (fl.head == fl.v.n)
                    fl.head = fl.v.n = 0;
                g_stats.reuses++;
            }
        }
        if (!a)
            a = freshBlock(cls);
        Hdr* h = (Hdr*)a;
        h->magic = MAGIC_LIVE;
        h->cls = cls;
        h->size = n;
        uint64_t p = a + sizeof(Hdr);
        uint8_t* sh = g_hshadow + ((p - ARENA_BASE) >> 4);
        size_t full = n / 16, rest = n % 16, tot = clsSize(cls) / 16;
        memset(sh, 16, full);
        size_t k = full;
        if (rest)
            sh[k++] = (uint8_t)rest;
        if (n == 0 && k == 0) {
        }
        for (; k < tot; k++)
            sh[k] = SH_NONE;
        memset((void*)p, g_fillNew, n);
        shadowResetRange(p, clsSize(cls));
        g_liveBlocks++;
        g_liveBytes += n;
        g_allocCount++;
        g_stats.allocs++;
        return (void*)p;
    }

    static void heapFree(void* ptr)
    {
        uint64_t p = (uint64_t)ptr;
        Hdr* h = (Hdr*)(p - sizeof(Hdr));
        if ((p & 15) || h->magic != MAGIC_LIVE) {
            char st[256];
            stackOf(g_cur, st, sizeof st);
            if (!(p & 15) && h->magic == MAGIC_FREE)
                violation("double_free", "double free;%s", st);
            violation("bad_free", "free of a pointer that is not a block;%s",
                      st);
        }
        size_t n = h->size;
        if (g_multi && g_race && !g_oracle)
            raceRange(p, n, true, 0);
        h->magic = MAGIC_FREE;
        memset(g_hshadow + ((p - ARENA_BASE) >> 4), SH_FREED,
               clsSize(h->cls) / 16);
        memset(ptr, g_fillFree, n);
        g_liveBlocks--;
        g_liveBytes -= n;
        if (g_reuse != REUSE_NEVER)
            g_free[h->cls].v.push(p - sizeof(Hdr));
    }
    uint64_t liveBlocks()
    {
        return g_liveBlocks;
    }
    int liveThreads()
    {
        return g_live;
    }
    void setMaxSteps(uint64_t n)
    {
        g_plan.maxSteps = n;
    }
    void setFill(int fresh, int freed)
    {
        g_fillNew = (uint8_t)fresh;
        g_fillFree = (uint8_t)freed;
    }
    __attribute__((noinline)) void dirtyStack(int byte)
    {
        volatile char b[192 * 1024];
        memset((void*)b, byte, sizeof b);
    }
    uint64_t allocNo()
    {
        return g_allocCount;
    }
    uint64_t liveBytes()
    {
        return g_liveBytes;
    }
    void setHeap(int reuse, int place)
    {
        g_reuse = reuse;
        g_place = place;
        // uninitialised and freed memory content is part of the layout
        g_fillNew = (uint8_t)(g_heap.next() & 0xFF);
        g_fillFree = (uint8_t)(g_heap.next() | 1);
    }

    static bool g_heapReady = false;
    static void heapInit()
    {
        if (g_heapReady)
            return;
        g_heapReady = true;
        void* a = mmap((void*)ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                           MAP_FIXED_NOREPLACE,
                       -1, 0);
        if (a != (void*)ARENA_BASE) {
            fprintf(stderr, "sim: cannot map arena\n");
            _exit(97);
        }
        g_hshadow =
            (uint8_t*)mmap(nullptr, ARENA_SIZE / 16, PROT_READ | PROT_WRITE,
                           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (g_hshadow == MAP_FAILED)
            _exit(97);
        void* st = mmap((void*)STACK_BASE, STACK_SIZE * MAXT,
                        PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                            MAP_FIXED_NOREPLACE,
                        -1, 0);
        if (st != (void*)STACK_BASE)
            _exit(97);
        g_lo = ARENA_BASE + 4096;
        g_hi = ARENA_BASE + ARENA_SIZE - 4096;
    }

    // ------------------------------------------------------------------
    // race detector: per 8 byte granule, up to 4 records
    struct Slot
    {
        uint32_t clk;
        uint32_t pc;
        uint8_t tid; // 0xFF empty
        uint8_t mask;
        uint8_t flags; // 1 write, 2 atomic, 4 volatile
        uint8_t pad;
    };
    struct Cell
    {
        Slot s[4];
    };
    struct Page
    {
        uint64_t tag; // address >> 12
        Cell* cells;  // 512
    };
    enum
    {
        NPAGES = 1 << 16
    };
    static Page* g_pages = nullptr;
    static uint64_t g_lastTag = ~0ull;
    static Cell* g_lastCells = nullptr;

    static Cell* cellsFor(uint64_t tag, bool create)
    {
        if (tag == g_lastTag)
            return g_lastCells;
        uint64_t h = (tag * 0x9E3779B97F4A7C15ull) >> 48;
        for (int i = 0; i < NPAGES; i++) {
            Page& p = g_pages[(h + i) & (NPAGES - 1)];
            if (p.cells == nullptr) {
                if (!create)
                    return nullptr;
                p.tag = tag;
                p.cells = (Cell*)mmap(nullptr, 512 * sizeof(Cell),
                                      PROT_READ | PROT_WRITE,
                                      MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
                for (int k = 0; k < 512; k++)
                    for (int j = 0; j < 4; j++)
                        p.cells[k].s[j].tid = 0xFF;
            }
            else if (p.tag != tag)
                continue;
            g_lastTag = tag;
            g_lastCells = p.cells;
            return p.cells;
        }
        skip("memory");
    }
    static void shadowResetRange(uint64_t a, size_t n)
    {
        if (!g_pages)
            return;
        uint64_t end = a + n;
        for (uint64_t x = a & ~7ull; x < end;) {
            uint64_t pageEnd = (x | 4095) + 1;
            uint64_t e = pageEnd < end ? pageEnd : end;
            Cell* c = cellsFor(x >> 12, false);
            if (c)
                for (; x < e; x += 8) {
                    Cell& k = c[(x & 4095) >> 3];
                    for (int j = 0; j < 4; j++)
                        k.s[j].tid = 0xFF;
                }
            x = pageEnd;
        }
    }

    static void reportRace(uint64_t a, const Slot& prev, bool w, uint32_t pc)
    {
        char st[400], prevSt[64];
        stackOf(g_cur, st, sizeof st);
        snprintf(prevSt, sizeof prevSt, "@%x", prev.pc);
        const char* where = inArena(a) ? "heap"
                            : (a - STACK_BASE < STACK_SIZE * MAXT) ? "stack"
                                                                   : "global";
        violation("data_race",
                  "data race on %s memory at %lx: %s by thread %d at @%x stack%s; "
                  "unordered with %s by thread %d at %s",
                  where, (unsigned long)a, w ? "write" : "read", g_cur, pc, st,
                  (prev.flags & 1) ? "write" : "read", prev.tid, prevSt);
    }

    // true if another thread has an unexpired record in the granule
    static bool isShared(uint64_t a)
    {
        Cell* c = cellsFor(a >> 12, false);
        if (!c)
            return false;
        Cell& k = c[(a & 4095) >> 3];
        for (int j = 0; j < 4; j++)
            if (k.s[j].tid != 0xFF && k.s[j].tid != g_cur)
                return true;
        return false;
    }

    static inline void raceGranule(uint64_t g, uint8_t mask, uint8_t flags,
                                   uint32_t pc)
    {
        Cell* c = cellsFor(g >> 12, true);
        Cell& k = c[(g & 4095) >> 3];
        const bool w = flags & 1;
        uint32_t* vc = g_t[g_cur].vc;
        int same = -1, empty = -1;
        for (int j = 0; j < 4; j++) {
            Slot& s = k.s[j];
            if (s.tid == 0xFF) {
                if (empty < 0)
                    empty = j;
                continue;
            }
            if (s.tid == g_cur) {
                if ((s.mask & ~mask) == 0 && (w || !(s.flags & 1)) &&
                    ((s.flags & 2) == (flags & 2) || !(flags & 2)))
                    same = j;
                else if (s.clk == vc[g_cur] && (mask & ~s.mask) == 0 &&
                         ((s.flags & 1) || !w) && !(s.flags & 2))
                    return; // already covered by a stronger record
                continue;
            }
            if (!(s.mask & mask))
                continue;
            if (!(w || (s.flags & 1)))
                continue;
            if ((flags & 2) && (s.flags & 2))
                continue;
            if ((flags & 4) && (s.flags & 4))
                continue;
            if (s.clk > vc[s.tid])
                reportRace(g, s, w, pc);
            else if (w && (s.mask & ~mask) == 0 && !(flags & 2)) {
                // ordered before us and fully covered: obsolete
                if (empty < 0)
                    empty = j;
            }
        }
        int d = same >= 0 ? same : empty;
        if (d < 0)
            d = (int)(g_stats.raceChecks & 3);
        Slot& s = k.s[d];
        s.clk = vc[g_cur];
        s.pc = pc;
        s.tid = (uint8_t)g_cur;
        s.mask = mask;
        s.flags = flags;
    }

    static inline void raceAccess(uint64_t a, size_t n, uint8_t flags,
                                  uint32_t pc)
    {
        g_stats.raceChecks++;
        uint64_t g = a & ~7ull;
        unsigned off = a & 7;
        while (n) {
            unsigned k = 8 - off;
            if (k > n)
                k = (unsigned)n;
            uint8_t mask = (uint8_t)(((1u << k) - 1) << off);
            raceGranule(g, mask, flags, pc);
            n -= k;
            g += 8;
            off = 0;
        }
    }
    static void raceRange(uint64_t a, size_t n, bool w, uint32_t pc)
    {
        if (n > (1 << 16))
            n = 1 << 16;
        if (n)
            raceAccess(a, n, w ? 1 : 0, pc);
    }

    // synchronisation objects -> vector clock
    struct SyncVar
    {
        uint64_t addr;
        uint32_t vc[MAXT];
    };
    enum
    {
        NSYNC = 1 << 14
    };
    static SyncVar** g_sync = nullptr;
    static SyncVar* syncVar(const void* p)
    {
        uint64_t a = (uint64_t)p;
        uint64_t h = (a * 0x9E3779B97F4A7C15ull) >> 50;
        for (int i = 0; i < NSYNC; i++) {
            SyncVar*& s = g_sync[(h + i) & (NSYNC - 1)];
            if (!s) {
                s = (SyncVar*)__libc_calloc(1, sizeof(SyncVar));
                s->addr = a;
                return s;
            }
            if (s->addr == a)
                return s;
        }
        // table full: recycle (may only lose race reports, by adding order)
        return g_sync[h & (NSYNC - 1)];
    }
    static void vcMax(uint32_t* d, const uint32_t* s)
    {
        for (int i = 0; i < MAXT; i++)
            if (s[i] > d[i])
                d[i] = s[i];
    }
    static void acquire(const void* p)
    {
        vcMax(g_t[g_cur].vc, syncVar(p)->vc);
    }
    static void release(const void* p)
    {
        vcMax(syncVar(p)->vc, g_t[g_cur].vc);
        g_t[g_cur].vc[g_cur]++;
    }

    // ------------------------------------------------------------------
    // scheduler
    static void futexWait(int* a)
    {
        while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0)
            syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
        __atomic_store_n(a, 0, __ATOMIC_RELEASE);
    }
    static void futexWake(int* a)
    {
        __atomic_store_n(a, 1, __ATOMIC_RELEASE);
        syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
    }

    static void drawPreempt()
    {
        if (g_plan.explicitSched) {
            while (g_switchPos < g_plan.switches.size() &&
                   g_plan.switches[g_switchPos].step < g_stats.steps)
                g_switchPos++;
            g_nextPreempt = ~0ull;
            for (size_t i = g_switchPos; i < g_plan.switches.size(); i++)
                if (g_plan.switches[i].step > g_stats.steps &&
                    g_plan.switches[i].tid < 100) {
                    g_nextPreempt = g_plan.switches[i].step;
                    break;
                }
            return;
        }
        switch (g_mode) {
        case SCHED_RANDOM:
        case SCHED_STALL: {
            double m = g_p1 < 1 ? 1 : g_p1;
            // geometric through a uniform mixture, cheap and portable
            uint64_t d = 1 + g_sched.below((uint64_t)(2 * m));
            g_nextPreempt = g_stats.steps + d;
            break;
        }
        case SCHED_PCT: {
            g_nextPreempt = ~0ull;
            for (size_t i = 0; i < g_changePoints.n; i++)
                if (g_changePoints[i] > g_stats.steps &&
                    g_changePoints[i] < g_nextPreempt)
                    g_nextPreempt = g_changePoints[i];
            break;
        }
        default:
            g_nextPreempt = ~0ull;
        }
    }

    void setSched(int mode, double p1, int p2)
    {
        g_mode = mode;
        g_p1 = p1;
        g_p2 = p2;
        g_changePoints.clear();
        g_victim = -1;
        drawPreempt();
    }
    // a parallel phase starts: fresh priorities and change points
    static void phaseStart()
    {
        g_victim = -1;
        g_changePoints.clear();
        if (g_mode == SCHED_PCT) {
            g_t[g_cur].prio = (int)g_sched.below(1000000);
            uint64_t horizon = (uint64_t)(g_p1 < 2 ? 2 : g_p1);
            for (int i = 0; i < g_p2; i++)
                g_changePoints.push(g_stats.steps + 1 +
                                    g_sched.below(horizon));
        }
    }
    void reseed(int stream, uint64_t seed)
    {
        Rng* r[] = {&g_sched, &g_heap, &g_fault, &g_clock};
        r[stream]->seed(seed);
    }

    static bool runnable(int i)
    {
        return g_t[i].state == T_RUNNABLE;
    }

    static uint64_t g_simNs = 1700000000ull * 1000000000ull;
    static int64_t g_wallOffset = 0;

    static void switchTo(int t)
    {
        int me = g_cur;
        if (t == me)
            return;
        g_stats.switches++;
        mix(g_stats.schedHash, (g_stats.steps << 5) ^ (uint64_t)t);
        g_cur = t;
        g_lastTag = ~0ull;
        futexWake(&g_t[t].futex);
        if (g_t[me].state != T_FINISHED)
            futexWait(&g_t[me].futex);
    }

    static int pickRandom(bool includeSelf)
    {
        int cand[MAXT], n = 0;
        for (int i = 0; i < MAXT; i++)
            if (runnable(i) && (includeSelf || i != g_cur))
                cand[n++] = i;
        if (!n)
            return -1;
        if (g_mode == SCHED_STALL && g_victim >= 0 && n > 1) {
            int m = 0;
            for (int i = 0; i < n; i++)
                if (cand[i] != g_victim)
                    cand[m++] = cand[i];
            if (m < n)
                g_stats.fired[F_THREAD_STALL]++;
            n = m;
        }
        if (g_mode == SCHED_PCT) {
            int best = cand[0];
            for (int i = 1; i < n; i++)
                if (g_t[cand[i]].prio > g_t[best].prio)
                    best = cand[i];
            return best;
        }
        return cand[g_sched.below(n)];
    }

    // choose who runs now that the current thread cannot (or at a decision)
    static int choose(bool includeSelf)
    {
        if (g_plan.explicitSched) {
            int want = -1;
            const bool block = !includeSelf;
            for (size_t i = g_switchPos; i < g_plan.switches.size() &&
                                         g_plan.switches[i].step <=
                                             g_stats.steps;
                 i++)
                if (g_plan.switches[i].step == g_stats.steps &&
                    (g_plan.switches[i].tid >= 100) == block) {
                    want = g_plan.switches[i].tid % 100;
                    // consume, so that a second decision at the same step
                    // takes the next record
                    g_switchPos = i + 1;
                    break;
                }
            if (want >= 0 && want < MAXT && runnable(want) &&
                (includeSelf || want != g_cur))
                return want;
            if (includeSelf && runnable(g_cur))
                return g_cur;
            for (int i = 0; i < MAXT; i++)
                if (runnable(i) && (includeSelf || i != g_cur))
                    return i;
            return -1;
        }
        return pickRandom(includeSelf);
    }

    // kind 0: preemption, kind 1: successor of a thread that cannot go on
    static void recordSwitch(int t, int kind)
    {
        if (g_switchTrace.n < 2000000)
            g_switchTrace.push({g_stats.steps, t + 100 * kind});
    }

    static const char* waitKindName(int k)
    {
        switch (k) {
        case 1:
            return "mutex";
        case 2:
            return "condition";
        case 3:
            return "join";
        case 4:
            return "rwlock";
        case 5:
            return "once";
        case 6:
            return "futex";
        default:
            return "?";
        }
    }

    // current thread has left the runnable state: run somebody else
    static void blockAndSwitch()
    {
        while (true) {
            int t = choose(false);
            if (t < 0 && runnable(g_cur))
                t = g_cur;
            if (t < 0) {
                // nobody is runnable: advance the clock to the next timer
                uint64_t best = ~0ull;
                int who = -1;
                for (int i = 0; i < MAXT; i++)
                    if ((g_t[i].state == T_SLEEPING ||
                         g_t[i].state == T_BLOCKED) &&
                        g_t[i].wakeAt < best) {
                        best = g_t[i].wakeAt;
                        who = i;
                    }
                if (who >= 0) {
                    if (best > g_simNs) {
                        g_stats.simNs += best - g_simNs;
                        g_simNs = best;
                    }
                    g_t[who].timedOut = true;
                    g_t[who].state = T_RUNNABLE;
                    g_t[who].wakeAt = ~0ull;
                    continue;
                }
                char buf[600];
                size_t pos = 0;
                buf[0] = 0;
                for (int i = 0; i < MAXT; i++)
                    if (g_t[i].state == T_BLOCKED && pos < 500) {
                        char st[200];
                        stackOf(i, st, sizeof st);
                        pos += snprintf(buf + pos, sizeof buf - pos,
                                        " thread %d waits for %s%s;", i,
                                        waitKindName(g_t[i].waitKind), st);
                    }
                violation("deadlock", "no thread can run:%s", buf);
            }
            recordSwitch(t, 1);
            if (t == g_cur)
                return;
            switchTo(t);
            return;
        }
    }

    static void waitFor(const void* on, int kind)
    {
        Thread& t = g_t[g_cur];
        t.state = T_BLOCKED;
        t.waitOn = on;
        t.waitKind = kind;
        t.wakeAt = ~0ull;
        t.sinceBlock = 0;
        blockAndSwitch();
    }
    static void wakeAll(const void* on, int kind)
    {
        for (int i = 0; i < MAXT; i++)
            if (g_t[i].state == T_BLOCKED && g_t[i].waitOn == on &&
                g_t[i].waitKind == kind) {
                g_t[i].state = T_RUNNABLE;
                g_t[i].wakeAt = ~0ull;
            }
    }

    static void decision()
    {
        // a preemption decision of the strategy
        if (!g_plan.explicitSched && g_mode == SCHED_PCT) {
            g_t[g_cur].prio = -(int)(g_stats.steps & 0xffffff) - 1;
        }
        if (g_mode == SCHED_STALL && !g_plan.explicitSched &&
            (g_victim < 0 || !(g_sched.next() & 63))) {
            g_victim = (int)g_sched.below(MAXT);
            for (int k = 0; k < MAXT && !runnable(g_victim); k++)
                g_victim = (g_victim + 1) % MAXT;
        }
        int t = choose(true);
        drawPreempt();
        if (t >= 0 && t != g_cur) {
            recordSwitch(t, 0);
            g_stats.preemptions++;
            g_t[g_cur].sinceBlock = 0;
            switchTo(t);
        }
    }

    // extra preemption opportunity (sync op / shared memory)
    static void maybePreempt(double p)
    {
        if (!g_multi || g_oracle || g_plan.explicitSched)
            return;
        if (g_sched.chance(p)) {
            int t = pickRandom(false);
            if (t >= 0 && g_mode != SCHED_PCT) {
                recordSwitch(t, 0);
                g_stats.preemptions++;
                g_t[g_cur].sinceBlock = 0;
                switchTo(t);
            }
        }
    }
    static void syncPoint()
    {
        if (!g_active || g_oracle)
            return;
        g_stats.steps++;
        if (!g_multi)
            return;
        if (g_plan.explicitSched) {
            if (g_stats.steps >= g_nextPreempt)
                decision();
            return;
        }
        if (g_stats.steps >= g_nextPreempt) {
            decision();
            return;
        }
        double p = 0;
        switch (g_mode) {
        case SCHED_SYNC:
            p = 0.5;
            break;
        case SCHED_SHARED:
            p = 0.3;
            break;
        case SCHED_RANDOM:
        case SCHED_STALL:
            p = 0.1;
            break;
        default:
            break;
        }
        maybePreempt(p);
    }
    void yieldPoint()
    {
        if (g_active && tl_tid == g_cur && !g_t[g_cur].internal)
            syncPoint();
    }

    [[gnu::noinline]] static void outOfSteps()
    {
        if (g_plan.softLimit)
            skip("long");
        char st[400];
        stackOf(g_cur, st, sizeof st);
        violation("no_progress",
                  "the run did not end within %llu simulated steps;%s",
                  (unsigned long long)g_plan.maxSteps, st);
    }

    [[gnu::noinline]] static void badAccess(uint64_t a, size_t n, bool w)
    {
        uint8_t sh = g_hshadow[(a - ARENA_BASE) >> 4];
        char st[400];
        stackOf(g_cur, st, sizeof st);
        if (sh == SH_FREED)
            violation("use_after_free", "%s of %zu bytes in freed memory;%s",
                      w ? "write" : "read", n, st);
        violation("heap_overflow",
                  "%s of %zu bytes outside any allocated block;%s",
                  w ? "write" : "read", n, st);
    }
    static inline void heapCheck(uint64_t a, size_t n, bool w)
    {
        if (!inArena(a))
            return;
        uint64_t off = a - ARENA_BASE;
        uint64_t i = off >> 4;
        unsigned in = off & 15;
        while (true) {
            uint8_t sh = g_hshadow[i];
            size_t k = 16 - in;
            if (k > n)
                k = n;
            if (sh > 16 || in + k > sh) {
                badAccess(a, n, w);
            }
            n -= k;
            if (!n)
                return;
            in = 0;
            i++;
        }
    }

    // The memory of unobserved code is private to the thread and comes from
    // the allocator of the host, which reuses addresses without telling.
    static inline bool raceable(uint64_t a)
    {
        return inArena(a) || a < (uint64_t)_end ||
               a - STACK_BASE < STACK_SIZE * MAXT;
    }

    static inline void access(const void* p, size_t n, uint8_t flags,
                              uint32_t pc)
    {
        if (!g_active || tl_tid != g_cur || g_t[g_cur].internal ||
            g_t[g_cur].skipAt)
            return;
        uint64_t a = (uint64_t)p;
        if (g_oracle) {
            heapCheck(a, n, flags & 1);
            return;
        }
        if (++g_stats.steps > g_plan.maxSteps)
            outOfSteps();
#ifdef SIM_PROF
        if (g_stats.steps % 997 == 0) {
            char st[400];
            stackOf(g_cur, st, sizeof st);
            fprintf(stderr, "PROF %x %s\n", pc, st);
        }
#endif
        if (g_multi) {
            if (g_stats.steps >= g_nextPreempt)
                decision();
            else if (!g_plan.explicitSched) {
                Thread& t = g_t[g_cur];
                if (++t.sinceBlock > FAIR_LIMIT) {
                    t.sinceBlock = 0;
                    // fairness: nobody is starved for ever
                    int next = -1;
                    for (int k = 1; k < MAXT && next < 0; k++)
                        if (runnable((g_cur + k) % MAXT))
                            next = (g_cur + k) % MAXT;
                    if (next >= 0) {
                        if (g_mode == SCHED_PCT)
                            g_t[g_cur].prio =
                                -(int)(g_stats.steps & 0xffffff) - 1;
                        recordSwitch(next, 0);
                        switchTo(next);
                    }
                }
                else if (g_mode == SCHED_SHARED && isShared(a))
                    maybePreempt(g_p1);
            }
            heapCheck(a, n, flags & 1);
            if (g_race && g_multi && raceable(a))
                raceAccess(a, n, flags, pc);
        }
        else
            heapCheck(a, n, flags & 1);
    }

    // ------------------------------------------------------------------
    // clock
    uint64_t now()
    {
        return g_simNs;
    }
    void advance(uint64_t ns)
    {
        g_simNs += ns;
        g_stats.simNs += ns;
        mix(g_stats.eventHash, ns);
    }
    static void clockTick()
    {
        g_stats.clockReads++;
        g_simNs += 1000 + g_clock.below(2000000); // up to 2 ms between reads
        g_stats.simNs += 1000;
        int64_t arg = 0;
        if (g_faults.clockJumpMaxNs > 0) {
            if (faultDecide(F_CLOCK_JUMP, g_faults.pClockJump, &arg,
                            g_faults.clockJumpMaxNs)) {
                g_simNs += (uint64_t)arg;
                g_stats.simNs += (uint64_t)arg;
            }
            if (g_faults.clockBackwards) {
                if (faultDecide(F_CLOCK_BACK, g_faults.pClockJump, &arg,
                                g_faults.clockJumpMaxNs))
                    g_wallOffset += (arg & 1) ? arg : -arg;
            }
        }
    }

    // ------------------------------------------------------------------
    // signals and terminate
    static void onSignal(int sig, siginfo_t* si, void*)
    {
        char buf[600], st[400];
        stackOf(g_cur < MAXT ? g_cur : 0, st, sizeof st);
        const char* name = sig == SIGSEGV   ? "SIGSEGV"
                           : sig == SIGABRT ? "SIGABRT"
                           : sig == SIGFPE  ? "SIGFPE"
                           : sig == SIGBUS  ? "SIGBUS"
                                            : "SIGILL";
        snprintf(buf, sizeof buf, "%s;%s", name, st);
        (void)si;
        finish("violation", "crash", buf);
    }
    static void onTerminate()
    {
        char buf[900];
        const char* what = "";
        char tn[300] = "no active exception (joinable std::thread destroyed?)";
        char w[400] = "";
        if (std::type_info* ti = abi::__cxa_current_exception_type()) {
            int st = 0;
            size_t len = 0;
            (void)len;
            const char* nm = ti->name();
            (void)st;
            snprintf(tn, sizeof tn, "%s", nm);
            try {
                throw;
            }
            catch (std::exception& e) {
                snprintf(w, sizeof w, "%s", e.what());
            }
            catch (...) {
            }
        }
        (void)what;
        char st2[300];
        stackOf(g_cur, st2, sizeof st2);
        snprintf(buf, sizeof buf, "std::terminate: %s %s;%s", tn, w, st2);
        finish("violation", "terminate", buf);
    }

    struct StartArg
    {
        void (*fn)(void*);
        void* arg;
    };
    static StartArg g_start;
    static void* mainTrampoline(void*)
    {
        tl_tid = 0;
        g_cur = 0;
        stack_t ss;
        ss.ss_sp = mmap(nullptr, 1 << 17, PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        ss.ss_size = 1 << 17;
        ss.ss_flags = 0;
        sigaltstack(&ss, nullptr);
        g_active = true;
        try {
            g_start.fn(g_start.arg);
        }
        catch (std::exception& e) {
            char b[600];
            snprintf(b, sizeof b, "%s: %s", typeid(e).name(), e.what());
            violation("unexpected_exception", "%s", b);
        }
        if (g_live > 1) {
            violation("thread_leak", "%d worker threads are still alive when "
                                     "the workload has ended",
                      g_live - 1);
        }
        finish("ok", "ok", "");
        return nullptr;
    }

    static int (*real_pthread_create)(pthread_t*, const pthread_attr_t*,
                                      void* (*)(void*), void*) = nullptr;
    static int (*real_pthread_join)(pthread_t, void**) = nullptr;

    void start(const Plan& plan, void (*fn)(void*), void* arg, int outFd)
    {
        heapInit();
        g_plan = plan;
        g_outFd = outFd;
        memset(&g_stats, 0, sizeof g_stats);
        g_keepLog = getenv("SIM_KEEPLOG") != nullptr;
        uint64_t x = plan.seed ^ 0x5DEECE66Dull;
        g_work.seed(splitmix(x));
        g_sched.seed(splitmix(x));
        g_heap.seed(splitmix(x));
        g_fault.seed(splitmix(x));
        g_clock.seed(splitmix(x));
        g_pages = (Page*)mmap(nullptr, NPAGES * sizeof(Page),
                              PROT_READ | PROT_WRITE,
                              MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1,
                              0);
        g_sync = (SyncVar**)mmap(nullptr, NSYNC * sizeof(void*),
                                 PROT_READ | PROT_WRITE,
                                 MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_sigaction = onSignal;
        sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
        for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL})
            sigaction(s, &sa, nullptr);
        std::set_terminate(onTerminate);
        setenv("TZ", "UTC", 1);
        g_t[0].state = T_RUNNABLE;
        g_t[0].vc[0] = 1;
        g_t[0].wakeAt = ~0ull;
        g_live = 1;
        g_stats.maxThreads = 1;
        g_start = {fn, arg};
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, (void*)(STACK_BASE), STACK_SIZE);
        pthread_t th;
        int rc = real_pthread_create(&th, &at, mainTrampoline, nullptr);
        if (rc) {
            fprintf(stderr, "sim: pthread_create failed\n");
            _exit(97);
        }
        while (true)
            pause();
    }

    // ------------------------------------------------------------------
    // thread operations
    static void* threadTrampoline(void* p)
    {
        int id = (int)(long)p;
        tl_tid = id;
        Thread& t = g_t[id];
        stack_t ss;
        ss.ss_sp = mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        ss.ss_size = 1 << 16;
        ss.ss_flags = 0;
        futexWait(&t.futex);
        sigaltstack(&ss, nullptr);
        t.ret = t.fn(t.arg);
        // thread-local destructors run inside the simulation
        while (t.dtors.n) {
            Dtor d = t.dtors[--t.dtors.n];
            d.fn(d.obj);
        }
        syncPoint();
        // finished
        t.state = T_FINISHED;
        g_live--;
        t.vc[id]++;
        shadowResetRange(STACK_BASE + STACK_SIZE * id,
                         0); // stack shadow is cleared at reuse
        wakeAll(&t, 3);
        if (t.detached)
            t.state = T_FINISHED;
        tl_tid = -1;
        if (g_live == 1)
            g_multi = false;
        // hand over for good
        int me = id;
        int next = choose(false);
        if (next < 0) {
            // only sleepers or blocked threads are left
            g_t[me].state = T_FINISHED;
            tl_tid = me; // diagnose in our context
            uint64_t best = ~0ull;
            int who = -1;
            for (int i = 0; i < MAXT; i++)
                if ((g_t[i].state == T_SLEEPING || g_t[i].state == T_BLOCKED) &&
                    g_t[i].wakeAt < best) {
                    best = g_t[i].wakeAt;
                    who = i;
                }
            if (who < 0)
                violation("deadlock",
                          "no thread can run after thread %d has ended", me);
            if (best > g_simNs)
                g_simNs = best;
            g_t[who].timedOut = true;
            g_t[who].state = T_RUNNABLE;
            g_t[who].wakeAt = ~0ull;
            next = who;
            tl_tid = -1;
        }
        recordSwitch(next, 1);
        g_stats.switches++;
        mix(g_stats.schedHash, (g_stats.steps << 5) ^ (uint64_t)next);
        g_cur = next;
        g_lastTag = ~0ull;
        drawPreempt();
        futexWake(&g_t[next].futex);
        return t.ret;
    }

    static int simCreate(pthread_t* out, void* (*fn)(void*), void* arg)
    {
        syncPoint();
        if (faultDecide(F_THREAD_CREATE_FAIL, g_faults.pThreadFail, nullptr, 0))
            return EAGAIN;
        int id = -1;
        for (int i = 1; i < MAXT; i++)
            if (g_t[i].state == T_FREE) {
                id = i;
                break;
            }
        if (id < 0)
            simError("too many simulated threads");
        Thread& t = g_t[id];
        t.fn = fn;
        t.arg = arg;
        t.ret = nullptr;
        t.detached = false;
        t.futex = 0;
        t.frames.clear();
        t.skipAt = 0;
        t.dtors.clear();
        t.internal = false;
        t.sinceBlock = 0;
        t.wakeAt = ~0ull;
        t.slotGen++;
        uint32_t own = t.vc[id];
        memcpy(t.vc, g_t[g_cur].vc, sizeof t.vc);
        if (own > t.vc[id])
            t.vc[id] = own;
        t.vc[id]++;
        g_t[g_cur].vc[g_cur]++;
        t.prio = (int)g_sched.below(1000000);
        uint64_t stk = STACK_BASE + STACK_SIZE * id;
        // forget accesses to the stack of the previous user of the slot
        for (uint64_t pg = stk >> 12; pg < (stk + STACK_SIZE) >> 12; pg++) {
            Cell* c = cellsFor(pg, false);
            if (c)
                for (int k = 0; k < 512; k++)
                    for (int j = 0; j < 4; j++)
                        c[k].s[j].tid = 0xFF;
        }
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, (void*)stk, STACK_SIZE);
        g_t[g_cur].internal = true;
        int rc = real_pthread_create(&t.real, &at, threadTrampoline,
                                     (void*)(long)id);
        g_t[g_cur].internal = false;
        if (rc)
            simError("real pthread_create failed: %d", rc);
        t.state = T_RUNNABLE;
        g_live++;
        g_stats.threadsCreated++;
        if (g_live > g_stats.maxThreads)
            g_stats.maxThreads = g_live;
        *out = t.real;
        if (!g_multi) {
            g_multi = true;
            phaseStart();
        }
        drawPreempt();
        syncPoint();
        return 0;
    }

    static int slotOf(pthread_t th)
    {
        for (int i = 1; i < MAXT; i++)
            if (g_t[i].state != T_FREE && !g_t[i].detached &&
                pthread_equal(g_t[i].real, th))
                return i;
        return -1;
    }
    static int simJoin(pthread_t th, void** ret)
    {
        syncPoint();
        int id = slotOf(th);
        if (id < 0)
            return ESRCH;
        if (id == g_cur)
            return EDEADLK;
        Thread& t = g_t[id];
        while (t.state != T_FINISHED)
            waitFor(&t, 3);
        vcMax(g_t[g_cur].vc, t.vc);
        if (ret)
            *ret = t.ret;
        g_t[g_cur].internal = true;
        real_pthread_join(th, nullptr);
        g_t[g_cur].internal = false;
        t.state = T_FREE;
        if (g_live == 1)
            g_multi = false;
        return 0;
    }

    // mutex state lives in the user's object so that a reconstructed mutex
    // starts unlocked: __lock = 0/1, __owner = tid + 1, __count
    static bool simTryLock(pthread_mutex_t* m)
    {
        auto& d = m->__data;
        if (d.__lock == 0) {
            d.__lock = 1;
            d.__owner = g_cur + 1;
            d.__count = 1;
            acquire(m);
            return true;
        }
        if (d.__kind == PTHREAD_MUTEX_RECURSIVE_NP && d.__owner == g_cur + 1) {
            d.__count++;
            return true;
        }
        return false;
    }
    static int simLock(pthread_mutex_t* m, bool sync = true)
    {
        heapCheck((uint64_t)m, sizeof(pthread_mutex_t), true);
        g_stats.mutexOps++;
        if (sync)
            syncPoint();
        while (!simTryLock(m)) {
            if (m->__data.__owner == g_cur + 1) {
                char st[300];
                stackOf(g_cur, st, sizeof st);
                violation("deadlock", "thread locks a mutex it holds;%s", st);
            }
            g_stats.mutexBlocked++;
            waitFor(m, 1);
        }
        return 0;
    }
    static int simUnlock(pthread_mutex_t* m, bool sync = true)
    {
        heapCheck((uint64_t)m, sizeof(pthread_mutex_t), true);
        auto& d = m->__data;
        if (d.__lock == 0 || d.__owner != g_cur + 1) {
            char st[300];
            stackOf(g_cur, st, sizeof st);
            violation("bad_unlock",
                      "a mutex is unlocked by a thread that does not hold "
                      "it;%s",
                      st);
        }
        if (d.__count > 1) {
            d.__count--;
            return 0;
        }
        d.__count = 0;
        d.__lock = 0;
        d.__owner = 0;
        release(m);
        wakeAll(m, 1);
        if (sync)
            syncPoint();
        return 0;
    }
    static int simCondWait(pthread_cond_t* c, pthread_mutex_t* m,
                           uint64_t deadline)
    {
        simUnlock(m, false);
        Thread& t = g_t[g_cur];
        t.timedOut = false;
        t.state = T_BLOCKED;
        t.waitOn = c;
        t.waitKind = 2;
        t.wakeAt = deadline;
        blockAndSwitch();
        bool to = t.timedOut;
        t.timedOut = false;
        acquire(c);
        simLock(m, false);
        return to ? ETIMEDOUT : 0;
    }
    static int simCondSignal(pthread_cond_t* c, bool all)
    {
        release(c);
        if (all)
            wakeAll(c, 2);
        else {
            int cand[MAXT], n = 0;
            for (int i = 0; i < MAXT; i++)
                if (g_t[i].state == T_BLOCKED && g_t[i].waitOn == c &&
                    g_t[i].waitKind == 2)
                    cand[n++] = i;
            if (n) {
                int k = cand[g_plan.explicitSched ? 0 : 0];
                g_t[k].state = T_RUNNABLE;
                g_t[k].wakeAt = ~0ull;
            }
        }
        syncPoint();
        return 0;
    }
    static void simSleep(uint64_t ns)
    {
        Thread& t = g_t[g_cur];
        t.state = T_SLEEPING;
        t.waitOn = nullptr;
        t.waitKind = 0;
        t.wakeAt = g_simNs + ns;
        t.timedOut = false;
        blockAndSwitch();
        if (g_simNs < t.wakeAt && t.wakeAt != ~0ull)
            g_simNs = t.wakeAt;
        t.wakeAt = ~0ull;
    }

    // am I a simulated thread in a state where calls are simulated?
    static inline bool in()
    {
        return g_active && tl_tid >= 0 && tl_tid == g_cur &&
               !g_t[g_cur].internal;
    }

    // ------------------------------------------------------------------
    // simulated disk
    struct File
    {
        char* path = nullptr;
        Vec<char> data;
        size_t durable = 0; // bytes known durable
        bool exists = false;
    };
    static Vec<File*> g_fs;
    static uint64_t g_fsWritten = 0;
    static int g_openHandles = 0;
    static const char* const PREFIX = "/simfs/";
    static bool isSim(const char* p)
    {
        return p && strncmp(p, PREFIX, 7) == 0;
    }
    static File* findFile(const char* p, bool create)
    {
        for (size_t i = 0; i < g_fs.n; i++)
            if (!strcmp(g_fs[i]->path, p))
                return g_fs[i];
        if (!create)
            return nullptr;
        File* f = (File*)__libc_calloc(1, sizeof(File));
        f->path = dupInternal(p);
        g_fs.push(f);
        return f;
    }
    bool fsExists(const std::string& path)
    {
        File* f = findFile(path.c_str(), false);
        return f && f->exists;
    }
    std::string fsRead(const std::string& path)
    {
        File* f = findFile(path.c_str(), false);
        if (!f || !f->exists)
            return "";
        return std::string(f->data.p ? f->data.p : "", f->data.n);
    }
    void fsWrite(const std::string& path, const std::string& c)
    {
        File* f = findFile(path.c_str(), true);
        f->exists = true;
        f->data.clear();
        for (char ch : c)
            f->data.push(ch);
        f->durable = f->data.n;
    }
    void fsRemove(const std::string& path)
    {
        File* f = findFile(path.c_str(), false);
        if (f)
            f->exists = false;
    }
    std::vector<std::string> fsList()
    {
        std::vector<std::string> r;
        for (size_t i = 0; i < g_fs.n; i++)
            if (g_fs[i]->exists)
                r.push_back(g_fs[i]->path);
        return r;
    }
    uint64_t fsBytesWritten()
    {
        return g_fsWritten;
    }
    int fsOpenHandles()
    {
        return g_openHandles;
    }
    void fsSyncAll()
    {
        for (size_t i = 0; i < g_fs.n; i++)
            g_fs[i]->durable = g_fs[i]->data.n;
    }
    void fsCrash()
    {
        for (size_t i = 0; i < g_fs.n; i++) {
            File* f = g_fs[i];
            if (!f->exists || f->durable >= f->data.n)
                continue;
            // survives: a prefix, cut anywhere or at a sector boundary
            int64_t keep = 0;
            if (faultDecide(F_CRASH_TORN, 1.0, &keep,
                            (int64_t)(f->data.n - f->durable))) {
                f->data.n = f->durable + (size_t)keep;
            }
            f->durable = f->data.n;
        }
    }

    struct Handle
    {
        bool used = false;
        File* f = nullptr;
        size_t pos = 0;
        bool rd = false, wr = false, app = false;
        FILE* fp = nullptr;
        bool failed = false;
    };
    enum
    {
        NH = 64,
        FD0 = 900000
    };
    static Handle g_h[NH];

    static ssize_t hWrite(Handle& h, const char* b, size_t n)
    {
        g_stats.ioOps++;
        if (!h.wr) {
            errno = EBADF;
            return -1;
        }
        if (n == 0)
            return 0;
        size_t k = n;
        if (g_faults.io) {
            if (faultDecide(F_EINTR, g_faults.pEintr, nullptr, 0)) {
                errno = EINTR;
                return -1;
            }
            if (faultDecide(F_EIO_WRITE, g_faults.pWriteErr, nullptr, 0)) {
                errno = EIO;
                return -1;
            }
            int64_t part = 0;
            if (n > 1 && faultDecide(F_SHORT_WRITE, g_faults.pShortWrite, &part,
                                     (int64_t)n - 2))
                k = (size_t)part + 1;
        }
        if (g_faults.diskCapacity >= 0) {
            int64_t left = g_faults.diskCapacity - (int64_t)g_fsWritten;
            if (left <= 0) {
                g_stats.fired[F_ENOSPC]++;
                errno = ENOSPC;
                return -1;
            }
            if ((int64_t)k > left)
                k = (size_t)left;
        }
        if (h.app)
            h.pos = h.f->data.n;
        while (h.f->data.n < h.pos)
            h.f->data.push('\0');
        for (size_t i = 0; i < k; i++) {
            if (h.pos < h.f->data.n)
                h.f->data[h.pos] = b[i];
            else
                h.f->data.push(b[i]);
            h.pos++;
        }
        g_fsWritten += k;
        return (ssize_t)k;
    }
    static ssize_t hRead(Handle& h, char* b, size_t n)
    {
        g_stats.ioOps++;
        if (!h.rd) {
            errno = EBADF;
            return -1;
        }
        size_t avail = h.pos < h.f->data.n ? h.f->data.n - h.pos : 0;
        size_t k = n < avail ? n : avail;
        if (g_faults.io) {
            if (faultDecide(F_EINTR, g_faults.pEintr, nullptr, 0)) {
                errno = EINTR;
                return -1;
            }
            if (faultDecide(F_EIO_READ, g_faults.pReadErr, nullptr, 0)) {
                errno = EIO;
                return -1;
            }
            int64_t part = 0;
            if (k > 1 && faultDecide(F_SHORT_READ, g_faults.pShortRead, &part,
                                     (int64_t)k - 2))
                k = (size_t)part + 1;
        }
        if (k)
            memcpy(b, h.f->data.p + h.pos, k);
        h.pos += k;
        return (ssize_t)k;
    }
    static ssize_t ckRead(void* c, char* b, size_t n)
    {
        // stdio does not retry: EINTR surfaces as a read error, so the
        // simulated kernel restarts the call (SA_RESTART semantics)
        Handle& h = *(Handle*)c;
        ssize_t r;
        do
            r = hRead(h, b, n);
        while (r < 0 && errno == EINTR);
        return r < 0 ? -1 : r;
    }
    static ssize_t ckWrite(void* c, const char* b, size_t n)
    {
        Handle& h = *(Handle*)c;
        size_t done = 0;
        while (done < n) {
            ssize_t r = hWrite(h, b + done, n - done);
            if (r < 0 && errno == EINTR)
                continue;
            if (r < 0)
                return done ? (ssize_t)done : 0; // 0 signals an error
            done += r;
        }
        return (ssize_t)done;
    }
    static off_t hSeek(Handle& h, off_t off, int whence)
    {
        off_t base = whence == SEEK_SET   ? 0
                     : whence == SEEK_CUR ? (off_t)h.pos
                                          : (off_t)h.f->data.n;
        off_t p = base + off;
        if (p < 0) {
            errno = EINVAL;
            return -1;
        }
        h.pos = (size_t)p;
        return p;
    }
    static int ckSeek(void* c, off64_t* off, int whence)
    {
        off_t r = hSeek(*(Handle*)c, *off, whence);
        if (r < 0)
            return -1;
        *off = r;
        return 0;
    }
    static int ckClose(void* c)
    {
        Handle& h = *(Handle*)c;
        bool err = h.wr && g_faults.io &&
                   faultDecide(F_CLOSE_FAIL, g_faults.pCloseErr, nullptr, 0);
        h.used = false;
        h.fp = nullptr;
        g_openHandles--;
        if (err) {
            errno = EIO;
            return -1;
        }
        return 0;
    }
    static FILE* simFopen(const char* path, const char* mode)
    {
        g_stats.ioOps++;
        if (g_faults.io) {
            int64_t a = 0;
            if (faultDecide(F_OPEN_FAIL, g_faults.pOpenErr, &a, 3)) {
                static const int e[] = {EACCES, EMFILE, EIO, ENOSPC};
                errno = e[a & 3];
                return nullptr;
            }
        }
        bool r = mode[0] == 'r', w = mode[0] == 'w', a = mode[0] == 'a';
        bool plus = strchr(mode, '+') != nullptr;
        File* f = findFile(path, !r);
        if (!f || (r && !f->exists)) {
            errno = ENOENT;
            return nullptr;
        }
        if (w) {
            f->data.clear();
            f->durable = 0;
        }
        f->exists = true;
        for (int i = 0; i < NH; i++)
            if (!g_h[i].used) {
                Handle& h = g_h[i];
                h = Handle();
                h.used = true;
                h.f = f;
                h.rd = r || plus;
                h.wr = w || a || plus;
                h.app = a;
                cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose};
                h.fp = fopencookie(&h, mode, io);
                g_openHandles++;
                return h.fp;
            }
        errno = EMFILE;
        return nullptr;
    }
    static Handle* byFd(int fd)
    {
        if (fd < FD0 || fd >= FD0 + NH || !g_h[fd - FD0].used)
            return nullptr;
        return &g_h[fd - FD0];
    }

    int hostRun(const std::vector<std::pair<std::string, std::string>>& files,
                const char* script, std::string& output)
    {
        OracleScope o;
        const char* base = getenv("SIM_SCRATCH");
        char dir[400], path[600];
        snprintf(dir, sizeof dir, "%s/simhost.%d", base ? base : "/tmp",
                 (int)syscall(SYS_getpid));
        if (syscall(SYS_mkdir, dir, 0700) != 0)
            return -1;
        for (auto& f : files) {
            snprintf(path, sizeof path, "%s/%s", dir, f.first.c_str());
            long fd = syscall(SYS_open, path, O_CREAT | O_WRONLY | O_TRUNC,
                              0600);
            size_t at = 0;
            while (fd >= 0 && at < f.second.size()) {
                long n = syscall(SYS_write, fd, f.second.data() + at,
                                 f.second.size() - at);
                if (n <= 0)
                    break;
                at += (size_t)n;
            }
            if (fd >= 0)
                syscall(SYS_close, fd);
        }
        int fds[2];
        int status = -1;
        output.clear();
        if (syscall(SYS_pipe2, fds, O_CLOEXEC) == 0) {
            posix_spawn_file_actions_t fa;
            posix_spawn_file_actions_init(&fa);
            posix_spawn_file_actions_adddup2(&fa, fds[1], 1);
            posix_spawn_file_actions_adddup2(&fa, fds[1], 2);
            posix_spawnattr_t at;
            posix_spawnattr_init(&at);
            sigset_t none, all;
            sigemptyset(&none);
            sigfillset(&all);
            posix_spawnattr_setsigmask(&at, &none);
            posix_spawnattr_setsigdefault(&at, &all);
            posix_spawnattr_setflags(&at, POSIX_SPAWN_SETSIGMASK |
                                              POSIX_SPAWN_SETSIGDEF);
            char cmd[4000], tmpd[500];
            snprintf(cmd, sizeof cmd, "ulimit -t 60; cd '%s' || exit 99; %s",
                     dir, script);
            snprintf(tmpd, sizeof tmpd, "TMPDIR=%s", dir);
            char* argv[] = {(char*)"sh", (char*)"-c", cmd, nullptr};
            char* envp[] = {(char*)"PATH=/usr/local/bin:/usr/bin:/bin",
                            (char*)"LC_ALL=C", tmpd, nullptr};
            pid_t pid = -1;
            int rc = posix_spawn(&pid, "/bin/sh", &fa, &at, argv, envp);
            posix_spawn_file_actions_destroy(&fa);
            posix_spawnattr_destroy(&at);
            syscall(SYS_close, fds[1]);
            if (rc == 0) {
                char buf[4096];
                for (;;) {
                    long n = syscall(SYS_read, fds[0], buf, sizeof buf);
                    if (n < 0 && errno == EINTR)
                        continue;
                    if (n <= 0)
                        break;
                    if (output.size() < (4u << 20))
                        output.append(buf, (size_t)n);
                }
                int st = 0;
                while (syscall(SYS_wait4, pid, &st, 0, nullptr) < 0 &&
                       errno == EINTR) {
                }
                status = st;
            }
            syscall(SYS_close, fds[0]);
        }
        if (DIR* d = opendir(dir)) {
            while (struct dirent* e = readdir(d))
                if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) {
                    snprintf(path, sizeof path, "%s/%s", dir, e->d_name);
                    syscall(SYS_unlink, path);
                }
            closedir(d);
        }
        syscall(SYS_rmdir, dir);
        return status;
    }

} // namespace sim

using namespace sim;

// ======================================================================
// interposed symbols
#define REAL(name)                                                             \
    static decltype(&name) real = nullptr;                                     \
    if (!real)                                                                 \
        real = (decltype(&name))dlsym(RTLD_NEXT, #name);

extern "C" {

__attribute__((constructor(101))) static void simInit()
{
    sim::real_pthread_create =
        (decltype(sim::real_pthread_create))dlsym(RTLD_NEXT, "pthread_create");
    sim::real_pthread_join =
        (decltype(sim::real_pthread_join))dlsym(RTLD_NEXT, "pthread_join");
}

// ---- instrumentation -----------------------------------------------------
#define PC() ((uint32_t)(uint64_t)__builtin_return_address(0))

// Compiling and matching a std::regex works on objects private to the thread;
// its accesses (95% of a training run, the library does it at each type
// check) are neither steps nor preemption points.
static uint32_t g_pcKind[1 << 16];
[[gnu::noinline]] static bool unobservedSlow(uint32_t pc)
{
    Dl_info di;
    bool skip = false;
    if (dladdr((void*)(uint64_t)pc, &di) && di.dli_sname) {
        const char* n = di.dli_sname;
        skip = strstr(n, "8__detail9_Compiler") || strstr(n, "8__detail4_NFA") ||
               strstr(n, "__regex_algo_search") || strstr(n, "11basic_regex") ||
               strstr(n, "8__detail9_Executor") ||
               strstr(n, "_BracketMatcher");
    }
    g_pcKind[(pc >> 2) & 0xffff] = (pc << 1) | (skip ? 1 : 0);
    return skip;
}
static inline bool unobserved(uint32_t pc)
{
    uint32_t k = g_pcKind[(pc >> 2) & 0xffff];
    if ((k >> 1) == (pc & 0x7fffffff) && k)
        return k & 1;
    return unobservedSlow(pc);
}
void __tsan_init() {}
void __tsan_func_entry(void* pc)
{
    if (!in())
        return;
    Thread& t = g_t[g_cur];
    uint32_t here = (uint32_t)(uint64_t)PC();
    t.frames.push(here);
    if (!t.skipAt && unobserved(here))
        t.skipAt = t.frames.n;
    (void)pc;
}
void __tsan_func_exit()
{
    if (!in())
        return;
    Thread& t = g_t[g_cur];
    if (t.frames.n)
        t.frames.n--;
    if (t.frames.n < t.skipAt)
        t.skipAt = 0;
}
#define RW(n)                                                                  \
    void __tsan_read##n(void* p)                                               \
    {                                                                          \
        access(p, n, 0, PC());                                                 \
    }                                                                          \
    void __tsan_write##n(void* p)                                              \
    {                                                                          \
        access(p, n, 1, PC());                                                 \
    }                                                                          \
    void __tsan_volatile_read##n(void* p)                                      \
    {                                                                          \
        access(p, n, 4, PC());                                                 \
    }                                                                          \
    void __tsan_volatile_write##n(void* p)                                     \
    {                                                                          \
        access(p, n, 5, PC());                                                 \
    }                                                                          \
    void __tsan_unaligned_read##n(void* p)                                     \
    {                                                                          \
        access(p, n, 0, PC());                                                 \
    }                                                                          \
    void __tsan_unaligned_write##n(void* p)                                    \
    {                                                                          \
        access(p, n, 1, PC());                                                 \
    }                                                                          \
    void __tsan_unaligned_volatile_read##n(void* p)                            \
    {                                                                          \
        access(p, n, 4, PC());                                                 \
    }                                                                          \
    void __tsan_unaligned_volatile_write##n(void* p)                           \
    {                                                                          \
        access(p, n, 5, PC());                                                 \
    }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* p, unsigned long n)
{
    if (n)
        access(p, n, 0, PC());
}
void __tsan_write_range(void* p, unsigned long n)
{
    if (n)
        access(p, n, 1, PC());
}
void __tsan_vptr_update(void** p, void* v)
{
    if (*p != v)
        access(p, 8, 1, PC());
}
void __tsan_vptr_read(void** p)
{
    access(p, 8, 0, PC());
}
void* __tsan_memcpy(void* d, const void* s, unsigned long n)
{
    if (n) {
        access(s, n, 0, PC());
        access(d, n, 1, PC());
    }
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, unsigned long n)
{
    if (n) {
        access(s, n, 0, PC());
        access(d, n, 1, PC());
    }
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, unsigned long n)
{
    if (n)
        access(d, n, 1, PC());
    return memset(d, c, n);
}

// ---- atomics -------------------------------------------------------------
static inline void atomicPre(const volatile void* p, size_t n, bool w, int mo,
                             uint32_t pc)
{
    if (!in() || g_oracle)
        return;
    if (g_multi) {
        access((const void*)p, n, (w ? 1 : 0) | 2, pc);
        syncPoint();
        if (mo != __ATOMIC_RELAXED) {
            if (mo != __ATOMIC_RELEASE)
                acquire((const void*)p);
            if (w && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME)
                release((const void*)p);
        }
    }
    else
        access((const void*)p, n, (w ? 1 : 0) | 2, pc);
}
#define ATOMIC(bits, T)                                                        \
    T __tsan_atomic##bits##_load(const volatile T* p, int mo)                  \
    {                                                                          \
        atomicPre(p, sizeof(T), false, mo, PC());                              \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                           \
    }                                                                          \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int mo)               \
    {                                                                          \
        atomicPre(p, sizeof(T), true, mo, PC());                               \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                              \
    }                                                                          \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo)               \
    {                                                                          \
        atomicPre(p, sizeof(T), true, mo, PC());                               \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                    \
    }                                                                          \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo)              \
    {                                                                          \
        atomicPre(p, sizeof(T), true, mo, PC());                               \
        return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                     \
    }                                                                          \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo)              \
    {                                                                          \
        atomicPre(p, sizeof(T), true, mo, PC());                               \
        return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                     \
    }                                                                          \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo)              \
    {                                                                          \
        atomicPre(p, sizeof(T), true, mo, PC());                               \
        return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                     \
    }                                                                          \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo)               \
    {                                                                          \
        atomicPre(p, sizeof(T), true, mo, PC());                               \
        return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                      \
    }                                                                          \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo)              \
    {                                                                          \
        atomicPre(p, sizeof(T), true, mo, PC());                               \
        return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                     \
    }                                                                          \
    T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo)             \
    {                                                                          \
        atomicPre(p, sizeof(T), true, mo, PC());                               \
        return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);                    \
    }                                                                          \
    bool __tsan_atomic##bits##_compare_exchange_strong(                        \
        volatile T* p, T* c, T v, int mo, int)                                 \
    {                                                                          \
        atomicPre(p, sizeof(T), true, mo, PC());                               \
        return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST,   \
                                           __ATOMIC_SEQ_CST);                  \
    }                                                                          \
    bool __tsan_atomic##bits##_compare_exchange_weak(                          \
        volatile T* p, T* c, T v, int mo, int)                                 \
    {                                                                          \
        atomicPre(p, sizeof(T), true, mo, PC());                               \
        return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST,   \
                                           __ATOMIC_SEQ_CST);                  \
    }                                                                          \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T c, T v,      \
                                                 int mo, int)                  \
    {                                                                          \
        atomicPre(p, sizeof(T), true, mo, PC());                               \
        __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST,         \
                                    __ATOMIC_SEQ_CST);                         \
        return c;                                                              \
    }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo)
{
    if (in() && g_multi && mo != __ATOMIC_RELAXED) {
        static int fence;
        acquire(&fence);
        release(&fence);
    }
}
void __tsan_atomic_signal_fence(int) {}

// ---- static initialisation guards -------------------------------------------
int __cxa_guard_acquire(uint64_t* g)
{
    volatile uint8_t* b = (volatile uint8_t*)g;
    if (b[0]) {
        if (in())
            acquire(g);
        return 0;
    }
    if (in()) {
        syncPoint();
        while (b[1]) {
            waitFor(g, 5);
        }
        if (b[0]) {
            acquire(g);
            return 0;
        }
    }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(uint64_t* g)
{
    volatile uint8_t* b = (volatile uint8_t*)g;
    b[1] = 0;
    b[0] = 1;
    if (in()) {
        release(g);
        wakeAll(g, 5);
    }
}
void __cxa_guard_abort(uint64_t* g)
{
    volatile uint8_t* b = (volatile uint8_t*)g;
    b[1] = 0;
    if (in())
        wakeAll(g, 5);
}
int __cxa_thread_atexit_impl(void (*fn)(void*), void* obj, void* dso)
{
    if (in()) {
        g_t[g_cur].dtors.push({fn, obj});
        return 0;
    }
    REAL(__cxa_thread_atexit_impl);
    return real(fn, obj, dso);
}

// ---- threads -----------------------------------------------------------------
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*),
                   void* arg)
{
    if (!in())
        return real_pthread_create(t, a, fn, arg);
    return simCreate(t, fn, arg);
}
int pthread_join(pthread_t t, void** r)
{
    if (!in())
        return real_pthread_join(t, r);
    return simJoin(t, r);
}
int pthread_detach(pthread_t t)
{
    if (in()) {
        int id = slotOf(t);
        if (id >= 0)
            g_t[id].detached = true;
    }
    REAL(pthread_detach);
    return real(t);
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
    return in() ? simLock(m) : 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!in())
        return 0;
    syncPoint();
    return simTryLock(m) ? 0 : EBUSY;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*)
{
    return in() ? simLock(m) : 0;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t,
                            const struct timespec*)
{
    return in() ? simLock(m) : 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    return in() ? simUnlock(m) : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    return in() ? simCondWait(c, m, ~0ull) : 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m,
                           const struct timespec* ts)
{
    if (!in())
        return 0;
    return simCondWait(c, m,
                       (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t,
                           const struct timespec* ts)
{
    if (!in())
        return 0;
    return simCondWait(c, m,
                       (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec);
}
int pthread_cond_signal(pthread_cond_t* c)
{
    return in() ? simCondSignal(c, false) : 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    return in() ? simCondSignal(c, true) : 0;
}
int pthread_cond_destroy(pthread_cond_t*)
{
    return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)())
{
    volatile int* s = (volatile int*)o;
    if (!in()) {
        if (*s != 2) {
            fn();
            *s = 2;
        }
        return 0;
    }
    syncPoint();
    while (*s == 1)
        waitFor(o, 5);
    if (*s == 2) {
        acquire(o);
        return 0;
    }
    *s = 1;
    try {
        fn();
    }
    catch (...) {
        *s = 0;
        wakeAll(o, 5);
        throw;
    }
    *s = 2;
    release(o);
    wakeAll(o, 5);
    return 0;
}
// rwlock: __readers count, __cur_writer = tid + 1
static int rwLock(pthread_rwlock_t* l, bool w, bool tr)
{
    auto& d = l->__data;
    syncPoint();
    while (true) {
        if (d.__cur_writer == 0 && (!w || d.__readers == 0)) {
            if (w)
                d.__cur_writer = g_cur + 1;
            else
                d.__readers++;
            acquire(l);
            return 0;
        }
        if (tr)
            return EBUSY;
        waitFor(l, 4);
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
    return in() ? rwLock(l, false, false) : 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
    return in() ? rwLock(l, true, false) : 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l)
{
    return in() ? rwLock(l, false, true) : 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l)
{
    return in() ? rwLock(l, true, true) : 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    if (!in())
        return 0;
    auto& d = l->__data;
    if (d.__cur_writer == g_cur + 1)
        d.__cur_writer = 0;
    else if (d.__readers > 0)
        d.__readers--;
    release(l);
    wakeAll(l, 4);
    syncPoint();
    return 0;
}
int sched_yield()
{
    if (in() && g_multi && !g_oracle) {
        g_stats.steps++;
        if (g_stats.steps > g_plan.maxSteps)
            outOfSteps();
        int t = choose(false);
        if (t >= 0) {
            if (g_mode == SCHED_PCT)
                g_t[g_cur].prio = -(int)(g_stats.steps & 0xffffff) - 1;
            recordSwitch(t, 1);
            switchTo(t);
        }
    }
    return 0;
}
int nanosleep(const struct timespec* ts, struct timespec*)
{
    if (in()) {
        simSleep((uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec);
        return 0;
    }
    return (int)syscall(SYS_nanosleep, ts, nullptr);
}
int clock_nanosleep(clockid_t, int flags, const struct timespec* ts,
                    struct timespec*)
{
    if (in()) {
        uint64_t t = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
        if (flags & TIMER_ABSTIME)
            t = t > g_simNs ? t - g_simNs : 0;
        simSleep(t);
    }
    return 0;
}
int usleep(useconds_t us)
{
    if (in())
        simSleep((uint64_t)us * 1000);
    return 0;
}
// libstdc++ futures use futex directly
long syscall(long nr, ...) noexcept
{
    va_list ap;
    va_start(ap, nr);
    long a[6];
    for (int i = 0; i < 6; i++)
        a[i] = va_arg(ap, long);
    va_end(ap);
    if (nr == SYS_futex && g_active && tl_tid >= 0 && tl_tid == g_cur &&
        !g_t[g_cur].internal && (void*)a[0] != (void*)&g_t[g_cur].futex) {
        bool mine = false;
        for (int i = 0; i < MAXT; i++)
            if ((void*)a[0] == (void*)&g_t[i].futex)
                mine = true;
        if (!mine) {
            int op = (int)a[1] & 127;
            if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
                if (*(volatile int*)a[0] != (int)a[2]) {
                    errno = EAGAIN;
                    return -1;
                }
                waitFor((void*)a[0], 6);
                acquire((void*)a[0]);
                return 0;
            }
            if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
                release((void*)a[0]);
                wakeAll((void*)a[0], 6);
                return 1;
            }
        }
    }
    long ret;
    register long r10 __asm__("r10") = a[3];
    register long r8 __asm__("r8") = a[4];
    register long r9 __asm__("r9") = a[5];
    __asm__ volatile("syscall"
                     : "=a"(ret)
                     : "a"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10),
                       "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096) {
        errno = (int)-ret;
        return -1;
    }
    return ret;
}
int get_nprocs()
{
    return g_nprocs;
}

// ---- allocator -------------------------------------------------------------
static inline bool allocFails()
{
    if (!g_oracle && g_faults.failAllocAt >= 0) {
        if (g_faults.failAllocAt == 0) {
            g_faults.failAllocAt = -1;
            g_stats.fired[F_BAD_ALLOC]++;
            mix(g_stats.eventHash, 0xBADA110C);
            return true;
        }
        g_faults.failAllocAt--;
    }
    return false;
}
void* malloc(size_t n)
{
    if (!in())
        return __libc_malloc(n);
    return heapAlloc(n);
}
void free(void* p)
{
    if (!p)
        return;
    if (inArenaP(p)) {
        if (in())
            heapFree(p);
        return; // freed outside of the simulation: leave it
    }
    __libc_free(p);
}
void* calloc(size_t a, size_t b)
{
    if (!in())
        return __libc_calloc(a, b);
    size_t n = a * b;
    void* p = heapAlloc(n);
    memset(p, 0, n);
    return p;
}
void* realloc(void* p, size_t n)
{
    if (!in() && !inArenaP(p))
        return __libc_realloc(p, n);
    if (!p)
        return malloc(n);
    if (!inArenaP(p)) {
        // block of the outer allocator grown inside of the simulation
        return __libc_realloc(p, n);
    }
    size_t old = ((Hdr*)((uint64_t)p - sizeof(Hdr)))->size;
    void* q = malloc(n);
    memcpy(q, p, old < n ? old : n);
    free(p);
    return q;
}
void* memalign(size_t al, size_t n)
{
    if (!in())
        return __libc_memalign(al, n);
    if (al <= 16)
        return heapAlloc(n);
    return __libc_memalign(al, n); // rare: over-aligned, outside of the model
}
void* aligned_alloc(size_t al, size_t n)
{
    return memalign(al, n);
}
int posix_memalign(void** p, size_t al, size_t n)
{
    *p = memalign(al, n);
    return *p ? 0 : ENOMEM;
}
size_t malloc_usable_size(void* p)
{
    if (!p)
        return 0;
    if (inArenaP(p))
        return ((Hdr*)((uint64_t)p - sizeof(Hdr)))->size;
    REAL(malloc_usable_size);
    return real(p);
}

// ---- clock ---------------------------------------------------------------
int clock_gettime(clockid_t id, struct timespec* ts)
{
    if (!in())
        return (int)syscall(SYS_clock_gettime, id, ts);
    clockTick();
    uint64_t t = g_simNs;
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)
        t = (uint64_t)((int64_t)t + g_wallOffset);
    ts->tv_sec = (time_t)(t / 1000000000ull);
    ts->tv_nsec = (long)(t % 1000000000ull);
    return 0;
}
int gettimeofday(struct timeval* tv, void*)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t)
        *t = ts.tv_sec;
    return ts.tv_sec;
}

// ---- files -------------------------------------------------------------------
FILE* fopen(const char* path, const char* mode)
{
    if (in() && isSim(path)) {
        g_t[g_cur].internal = true;
        FILE* f = simFopen(path, mode);
        g_t[g_cur].internal = false;
        return f;
    }
    REAL(fopen);
    return real(path, mode);
}
FILE* fopen64(const char* path, const char* mode)
{
    if (in() && isSim(path))
        return fopen(path, mode);
    REAL(fopen64);
    return real(path, mode);
}
int fileno(FILE* f)
{
    for (int i = 0; i < NH; i++)
        if (g_h[i].used && g_h[i].fp == f)
            return FD0 + i;
    REAL(fileno);
    return real(f);
}
ssize_t write(int fd, const void* b, size_t n)
{
    if (Handle* h = byFd(fd))
        return hWrite(*h, (const char*)b, n);
    return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c)
{
    if (Handle* h = byFd(fd)) {
        ssize_t tot = 0;
        for (int i = 0; i < c; i++) {
            ssize_t r = hWrite(*h, (const char*)v[i].iov_base, v[i].iov_len);
            if (r < 0)
                return tot ? tot : -1;
            tot += r;
            if ((size_t)r < v[i].iov_len)
                break;
        }
        return tot;
    }
    return syscall(SYS_writev, fd, v, c);
}
ssize_t read(int fd, void* b, size_t n)
{
    if (Handle* h = byFd(fd))
        return hRead(*h, (char*)b, n);
    return syscall(SYS_read, fd, b, n);
}
off_t lseek(int fd, off_t o, int w) noexcept
{
    if (Handle* h = byFd(fd))
        return hSeek(*h, o, w);
    return syscall(SYS_lseek, fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) noexcept
{
    return lseek(fd, o, w);
}
int fstat(int fd, struct stat* st) noexcept
{
    if (Handle* h = byFd(fd)) {
        memset(st, 0, sizeof *st);
        st->st_mode = S_IFREG | 0644;
        st->st_size = (off_t)h->f->data.n;
        return 0;
    }
    return (int)syscall(SYS_fstat, fd, st);
}
int fstat64(int fd, struct stat64* st) noexcept
{
    return fstat(fd, (struct stat*)st);
}
int ioctl(int fd, unsigned long req, ...) noexcept
{
    va_list ap;
    va_start(ap, req);
    void* arg = va_arg(ap, void*);
    va_end(ap);
    if (Handle* h = byFd(fd)) {
        if (req == FIONREAD) {
            *(int*)arg = (int)(h->f->data.n - h->pos);
            return 0;
        }
        errno = ENOTTY;
        return -1;
    }
    return (int)syscall(SYS_ioctl, fd, req, arg);
}
int poll(struct pollfd* f, nfds_t n, int to)
{
    if (n == 1 && byFd(f[0].fd)) {
        f[0].revents = f[0].events;
        return 1;
    }
    return (int)syscall(SYS_poll, f, n, to);
}
int remove(const char* p) noexcept
{
    if (in() && isSim(p)) {
        fsRemove(p);
        return 0;
    }
    REAL(remove);
    return real(p);
}
int unlink(const char* p) noexcept
{
    if (in() && isSim(p)) {
        fsRemove(p);
        return 0;
    }
    return (int)syscall(SYS_unlink, p);
}
int rename(const char* a, const char* b) noexcept
{
    if (in() && isSim(a) && isSim(b)) {
        File* f = findFile(a, false);
        if (!f || !f->exists) {
            errno = ENOENT;
            return -1;
        }
        File* g = findFile(b, true);
        g->data.clear();
        for (size_t i = 0; i < f->data.n; i++)
            g->data.push(f->data[i]);
        g->durable = f->durable < g->data.n ? f->durable : g->data.n;
        g->exists = true;
        f->exists = false;
        return 0;
    }
    return (int)syscall(SYS_rename, a, b);
}
int stat(const char* p, struct stat* st) noexcept
{
    if (in() && isSim(p)) {
        File* f = findFile(p, false);
        size_t l = strlen(p);
        bool dir = !strcmp(p, "/simfs") || (l && p[l - 1] == '/');
        if ((!f || !f->exists) && !dir) {
            errno = ENOENT;
            return -1;
        }
        memset(st, 0, sizeof *st);
        st->st_mode = dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
        st->st_size = dir ? 0 : (off_t)f->data.n;
        return 0;
    }
    return (int)syscall(SYS_stat, p, st);
}
int access(const char* p, int m) noexcept
{
    if (in() && isSim(p)) {
        File* f = findFile(p, false);
        if (!f || !f->exists) {
            errno = ENOENT;
            return -1;
        }
        return 0;
    }
    return (int)syscall(SYS_access, p, m);
}
int mkdir(const char* p, mode_t m) noexcept
{
    if (in() && strncmp(p, "/simfs", 6) == 0)
        return 0;
    return (int)syscall(SYS_mkdir, p, m);
}

} // extern "C"

void* operator new(size_t n)
{
    if (!in()) {
        void* p = __libc_malloc(n ? n : 1);
        if (!p)
            throw std::bad_alloc();
        return p;
    }
    if (allocFails())
        throw std::bad_alloc();
    return heapAlloc(n);
}
void* operator new[](size_t n)
{
    return operator new(n);
}
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
    if (in() && allocFails())
        return nullptr;
    return malloc(n);
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept
{
    if (in() && allocFails())
        return nullptr;
    return malloc(n);
}
void operator delete(void* p) noexcept
{
    free(p);
}
void operator delete[](void* p) noexcept
{
    free(p);
}
void operator delete(void* p, size_t) noexcept
{
    free(p);
}
void operator delete[](void* p, size_t) noexcept
{
    free(p);
}
void operator delete(void* p, const std::nothrow_t&) noexcept
{
    free(p);
}
void operator delete[](void* p, const std::nothrow_t&) noexcept
{
    free(p);
}

// ---- red-black tree primitives of libstdc++.so -------------------------------
// They modify nodes in code that is not instrumented: declare the accesses.
namespace std {
    struct _Rb_tree_node_base;
}
extern "C" {
void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(
    bool l, void* x, void* p, void* hdr)
{
    static void (*real)(bool, void*, void*, void*) = nullptr;
    if (!real)
        real = (decltype(real))dlsym(
            RTLD_NEXT,
            "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
    uint32_t pc = PC();
    sim::access(hdr, 32, 1, pc);
    sim::access(p, 32, 1, pc);
    sim::access(x, 32, 1, pc);
    real(l, x, p, hdr);
}
void* _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void* z,
                                                                   void* hdr)
{
    static void* (*real)(void*, void*) = nullptr;
    if (!real)
        real = (decltype(real))dlsym(
            RTLD_NEXT,
            "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
    uint32_t pc = PC();
    sim::access(hdr, 32, 1, pc);
    sim::access(z, 32, 1, pc);
    return real(z, hdr);
}
void* _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(void* x)
{
    static void* (*real)(void*) = nullptr;
    if (!real)
        real = (decltype(real))dlsym(
            RTLD_NEXT, "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base");
    sim::access(x, 32, 0, PC());
    return real(x);
}
void* _ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(void* x)
{
    static void* (*real)(void*) = nullptr;
    if (!real)
        real = (decltype(real))dlsym(
            RTLD_NEXT, "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base");
    sim::access(x, 32, 0, PC());
    return real(x);
}
// list hooks
void _ZNSt8__detail15_List_node_base7_M_hookEPS0_(void* self, void* pos)
{
    static void (*real)(void*, void*) = nullptr;
    if (!real)
        real = (decltype(real))dlsym(
            RTLD_NEXT, "_ZNSt8__detail15_List_node_base7_M_hookEPS0_");
    uint32_t pc = PC();
    sim::access(self, 16, 1, pc);
    sim::access(pos, 16, 1, pc);
    real(self, pos);
}
void _ZNSt8__detail15_List_node_base9_M_unhookEv(void* self)
{
    static void (*real)(void*) = nullptr;
    if (!real)
        real = (decltype(real))dlsym(
            RTLD_NEXT, "_ZNSt8__detail15_List_node_base9_M_unhookEv");
    sim::access(self, 16, 1, PC());
    real(self);
}
}
