// P02: no data race, no memory error, no leak under any schedule.
#include "h.h"
using namespace H;

static void scenario(const Cfg& c, int gens)
{
    World w(c);
    auto& la = *w.agent;
    la.init(c.seed);
    for (int i = 0; i < gens; i++)
        la.trainOneGeneration((uint64_t)i);
    switch (knob("afterwards", 0, 5)) {
    case 1:
        la.keepBestPolicy();
        break;
    case 2: // used again
        la.init(c.seed + 1);
        la.trainOneGeneration(0);
        break;
    case 3:
        la.evaluateAllRoots(7, Learn::LearningMode::TESTING);
        break;
    case 4:
        w.graph().clearProgramIntrons();
        la.evaluateAllRoots(7, Learn::LearningMode::VALIDATION);
        break;
    case 5: {
        la.keepBestPolicy();
        la.trainOneGeneration((uint64_t)gens);
        break;
    }
    default:
        break;
    }
}

PROP(P02)
{
    Cfg c = drawCfg(1 << AK_PAR | 1 << AK_CLASS | 1 << AK_ADV, 3);
    setParallelKnobs(c);
    drawHeap();
    sim::note("agentName", agentName(c.agent));
    sim::raceDetection(true);
    drawSchedule();
    drawThreadFaults();
    int envs0 = g_liveEnvs;
    uint64_t base = sim::liveBlocks();
    scenario(c, c.nbGen);
    if (g_liveEnvs != envs0)
        sim::violation("environment_leak",
                       "%d environments remain after the agent and its "
                       "environment are destroyed",
                       g_liveEnvs - envs0);
    if (sim::liveThreads() != 1)
        sim::violation("thread_left", "%d threads still live",
                       sim::liveThreads() - 1);
    if (sim::liveBlocks() != base) {
        // lazily created statics are created once: repeat
        sim::probe("leak_recheck");
        quietSchedule();
        scenario(c, c.nbGen);
        uint64_t b1 = sim::liveBlocks();
        scenario(c, c.nbGen);
        uint64_t b2 = sim::liveBlocks();
        if (b2 > b1)
            sim::violation("leak",
                           "%llu blocks are not released by a training that "
                           "is repeated (live blocks %llu then %llu)",
                           (unsigned long long)(b2 - b1),
                           (unsigned long long)b1, (unsigned long long)b2);
    }
}
