// Deterministic simulation runtime: public interface used by the harness.
//
// One process = one simulated execution. Every source of nondeterminism is
// decided by streams derived from one 64 bit seed, or by an explicit plan read
// from a replay file.
#ifndef SIM_H
#define SIM_H
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace sim {

    // ---- random streams -------------------------------------------------
    struct Rng
    {
        uint64_t s[4];
        void seed(uint64_t x);
        uint64_t next();
        // uniform in [0, n-1]; n must be > 0
        uint64_t below(uint64_t n);
        uint64_t range(uint64_t lo, uint64_t hi)
        {
            return lo + below(hi - lo + 1);
        }
        bool chance(double p);
        double unit();
    };

    // ---- scheduling strategies ------------------------------------------
    enum SchedMode
    {
        SCHED_RANDOM = 0, // preempt after a geometric number of accesses
        SCHED_SHARED,     // preempt at accesses to memory other threads touch
        SCHED_PCT,        // random priorities with d change points
        SCHED_STALL,      // one thread is starved as long as possible
        SCHED_SYNC,       // preempt at synchronisation operations only
        SCHED_RUN,        // run until blocked, random successor
        SCHED_NMODES
    };

    // ---- heap layout policies --------------------------------------------
    enum HeapReuse
    {
        REUSE_NEVER = 0,
        REUSE_LIFO,
        REUSE_FIFO,
        REUSE_RANDOM,
        REUSE_NMODES
    };
    enum HeapPlace
    {
        PLACE_ASC = 0,
        PLACE_DESC,
        PLACE_SHUFFLE,
        PLACE_NMODES
    };

    struct Faults
    {
        // storage
        bool io = false;          // master switch
        double pShortWrite = 0;   // write returns fewer bytes than asked
        double pShortRead = 0;    // read returns fewer bytes than asked
        double pEintr = 0;        // EINTR on read or write
        double pWriteErr = 0;     // EIO on write
        double pReadErr = 0;      // EIO on read
        double pOpenErr = 0;      // open fails (EACCES, EMFILE, ENOSPC, EIO)
        double pCloseErr = 0;     // fclose/close reports an error
        int64_t diskCapacity = -1; // bytes writable before ENOSPC, -1: no limit
        // clock
        double pClockJump = 0; // per clock reading
        int64_t clockJumpMaxNs = 0;
        bool clockBackwards = false; // only the wall clock goes backwards
        // creating a thread fails (EAGAIN), whatever `io` says
        double pThreadFail = 0;
        // allocation failures: fail the n-th allocation after arming
        int64_t failAllocAt = -1;
    };

    struct FaultRec
    {
        uint64_t op; // index of the fault point
        int kind;
        int64_t arg;
    };
    struct SwitchRec
    {
        uint64_t step;
        int tid;
    };

    // What the run is allowed to do. Filled by the driver before start().
    struct Plan
    {
        uint64_t seed = 1;
        bool explicitSched = false;
        std::vector<SwitchRec> switches;
        bool explicitFaults = false;
        std::vector<FaultRec> faults;
        uint64_t maxSteps = 400000000ull;
        bool softLimit = false; // past maxSteps the run is skipped
    };

    // Names of the fault kinds, for the evidence.
    enum FaultKind
    {
        F_SHORT_WRITE = 0,
        F_SHORT_READ,
        F_EINTR,
        F_EIO_WRITE,
        F_EIO_READ,
        F_ENOSPC,
        F_OPEN_FAIL,
        F_CLOSE_FAIL,
        F_CRASH_TORN,
        F_CLOCK_JUMP,
        F_CLOCK_BACK,
        F_BAD_ALLOC,
        F_THREAD_STALL,
        F_ADDR_REUSE,
        F_STREAM_FAIL,
        F_ENV_THROW,
        F_THREAD_CREATE_FAIL,
        F_STOP_REQUEST,
        F_NKINDS
    };
    extern const char* const faultNames[F_NKINDS];

    struct Stats
    {
        uint64_t steps, switches, preemptions, threadsCreated, mutexOps,
            mutexBlocked, raceChecks, allocs, reuses, clockReads, ioOps;
        uint64_t fired[F_NKINDS];
        uint64_t schedHash; // identifies the interleaving
        uint64_t eventHash; // identifies the whole execution
        int maxThreads;
        uint64_t simNs;
        uint64_t arenaBytes;
    };

    // Runs fn on a simulated main thread (fixed stack); does not return: the
    // process exits with the verdict written on fd `out`.
    void start(const Plan& plan, void (*fn)(void*), void* arg, int outFd);

    // ---- knobs, set by the workload between phases ---------------------------
    void setSched(int mode, double param1, int param2);
    void setHeap(int reuse, int place);
    void setFaults(const Faults& f);
    Faults& faults();
    void reseed(int stream, uint64_t seed); // stream: 0 sched, 1 heap, 2 fault,
                                            // 3 clock
    void raceDetection(bool on);
    void setNbProcs(int n);

    // ---- harness services ------------------------------------------------
    Rng& workRng();
    uint64_t now();
    // work that takes time
    void advance(uint64_t ns);
    int currentTid();
    uint64_t step();
    Stats& stats();
    // Registers a fact of the execution: folded in the hash, kept in the log.
    void event(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    // A fault fired by the harness itself (stream failure, thrown exception).
    void fired(int kind);
    // Asks the fault stream, at a fault point owned by the harness.
    bool faultPoint(int kind, double p, int64_t* arg = nullptr,
                    int64_t argMax = 0);
    // Counts a named rare condition.
    void probe(const char* name, uint64_t n = 1);
    // Reports a violation and ends the run.
    [[noreturn]] void violation(const char* cls, const char* fmt, ...)
        __attribute__((format(printf, 2, 3)));
    // Ends the run as uninteresting (precondition not met).
    [[noreturn]] void skip(const char* why);
    // Free-form key for the sample in the evidence.
    void note(const char* key, const std::string& val);
    // Something that distinguishes this case from others (state coverage).
    void stateHash(uint64_t h);
    // possible preemption point owned by the harness
    void yieldPoint();

    uint64_t liveBlocks();
    int liveThreads();
    // bytes written in fresh and in freed memory
    void setFill(int fresh, int freed);
    // overwrites the part of the stack below the caller
    void dirtyStack(int byte);
    uint64_t allocNo();
    void setMaxSteps(uint64_t n);
    uint64_t liveBytes();
    // Pause simulated step accounting & faults for oracle code.
    struct OracleScope
    {
        OracleScope();
        ~OracleScope();
    };

    // ---- simulated disk (paths under /simfs/) ---------------------------
    bool fsExists(const std::string& path);
    std::string fsRead(const std::string& path);
    void fsWrite(const std::string& path, const std::string& content);
    void fsRemove(const std::string& path);
    std::vector<std::string> fsList();
    uint64_t fsBytesWritten(); // bytes accepted by the disk so far
    // Simulated power failure: the content of each file written since the
    // last fsMark() becomes what the disk had made durable.
    void fsCrash();
    void fsSyncAll();
    int fsOpenHandles();

    // Runs a shell script of the host in a scratch directory holding `files`
    // (not simulated: compilers). Returns its status, -1 if it cannot run.
    int hostRun(const std::vector<std::pair<std::string, std::string>>& files,
                const char* script, std::string& output);
} // namespace sim
#endif
