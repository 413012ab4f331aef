// P01: multi-threaded training == single-threaded training.
#include "h.h"
using namespace H;

PROP(P01)
{
    Cfg c = drawCfg(1 << AK_PAR | 1 << AK_CLASS | 1 << AK_ADV, 3);
    Cfg seq = c, par = c;
    setParallelKnobs(par);
    drawHeap();
    sim::raceDetection(false); // P02 decides races
    sim::note("agentName", agentName(c.agent));
    RunDump a, b;
    {
        World w(seq);
        quietSchedule();
        trainAndDump(w, a);
    }
    {
        World w(par);
        drawSchedule();
        drawThreadFaults();
        trainAndDump(w, b);
    }
    compareRuns("parallel_differs", "1 thread versus several threads", a, b);
}
