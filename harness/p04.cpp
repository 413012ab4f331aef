// P04: training depends only on the seed, parameters and environment.
#include "h.h"
using namespace H;

namespace {
    struct FailBuf : std::streambuf
    {
        int mode;   // 0 swallows, 1 fails, 2 throws
        int after;
        explicit FailBuf(int m, int a) : mode(m), after(a)
        {
        }
        bool broken()
        {
            if (after > 0) {
                after--;
                return false;
            }
            if (mode)
                sim::fired(sim::F_STREAM_FAIL);
            if (mode == 2)
                throw std::runtime_error("stream");
            return mode == 1;
        }
        int overflow(int c) override
        {
            return broken() ? EOF : c;
        }
        std::streamsize xsputn(const char*, std::streamsize n) override
        {
            return broken() ? 0 : n;
        }
        int sync() override
        {
            return broken() ? -1 : 0;
        }
    };
} // namespace

PROP(P04)
{
    sim::setNbProcs(4);
    Cfg c = drawCfg(1 << AK_LEARN | 1 << AK_PAR | 1 << AK_CLASS |
                        1 << AK_CLASS_SEQ | 1 << AK_ADV,
                    4);
    bool par = flip("parallel", 30);
    if (par)
        setParallelKnobs(c);
    sim::raceDetection(false);
    sim::note("agentName", agentName(c.agent));
    quietSchedule();
    sim::setHeap(sim::REUSE_NEVER, sim::PLACE_ASC);
    RunDump a, b;
    {
        World w(c);
        trainAndDump(w, a);
    }
    // second life: everything that must not matter is different
    Cfg d = c;
    drawHeap();
    if (flip("otherFill", 70)) {
        static const int fills[] = {0x00, 0xFF, 0x01, 0x7F, 0x3F, 0xA5};
        int f = pickOf("fill", fills);
        sim::setFill(f, f ^ 0x5A);
        sim::dirtyStack(f);
    }
    std::vector<std::unique_ptr<char[]>> noise;
    if (flip("heapNoise", 60)) {
        int n = (int)knob("noiseBlocks", 1, 400);
        for (int i = 0; i < n; i++)
            noise.emplace_back(new char[16 + (i * 37) % 900]);
        for (size_t i = 0; i < noise.size(); i += 2)
            noise[i].reset();
    }
    sim::setNbProcs((int)knob("procs", 1, 64));
    if (flip("clockJumps", 50)) {
        sim::Faults f = sim::faults();
        f.pClockJump = 0.3;
        f.clockJumpMaxNs = 3600ll * 1000000000ll;
        f.clockBackwards = true;
        sim::setFaults(f);
    }
    if (flip("otherFactory", 30))
        d.instrumented = !d.instrumented;
    if (par) {
        drawSchedule();
        drawThreadFaults();
    }
    bool reuse = flip("usedAgent", 40);
    World w(d);
    FailBuf fb((int)knob("streamMode", 0, 2), (int)knob("streamAfter", 0, 60));
    std::ostream os(&fb);
    std::unique_ptr<Log::LABasicLogger> l1;
    std::unique_ptr<Log::LAPolicyStatsLogger> l2;
    std::unique_ptr<Log::CycleDetectionLALogger> l3;
    int loggers = (int)knob("loggers", 0, 7);
    if (loggers & 1)
        l1 = std::make_unique<Log::LABasicLogger>(*w.agent, os);
    if (loggers & 2)
        l2 = std::make_unique<Log::LAPolicyStatsLogger>(*w.agent, os);
    if (loggers & 4)
        l3 = std::make_unique<Log::CycleDetectionLALogger>(*w.agent, os, true);
    if (reuse) {
        int g = (int)knob("firstLife", 1, 3);
        w.agent->init(c.seed + (uint64_t)knob("otherSeed", 0, 3));
        for (int i = 0; i < g; i++)
            w.agent->trainOneGeneration((uint64_t)i);
        if (flip("keptBest", 30))
            w.agent->keepBestPolicy();
        sim::probe("reinitialised_agent");
    }
    trainAndDump(w, b);
    compareRuns("depends_on_environment",
                "same seed, other memory, clock, processors, loggers or "
                "earlier use",
                a, b);
}
