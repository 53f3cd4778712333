// Controlled OpenMP run time: the threads of a team are coroutines; the schedule is ours.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace mc {
// A scheduling decision: which of the enabled threads runs next. Default: keep running the current one,
// else the lowest (order=0) or the highest (order=1) enabled thread.
struct SchedHooks {
    // if set, called at every scheduling point with the list of enabled thread ids (current first if enabled).
    // returns index into the list.
    std::function<int(const std::vector<int>& enabled, bool current_enabled)> choose;
    std::function<void(int n)> region_begin, region_end;
};
extern SchedHooks hooks;
extern int order;            // default policy: 0 ascending, 1 descending
extern long n_regions, n_switch, n_sync;
extern bool in_region();
extern int current_thread(); // -1 outside
// race detector (only in -DMC_TSAN builds)
struct Race { std::string what; };
extern std::vector<Race> races;
extern long n_access;
extern bool detect;          // on/off
void force_yield();          // extra scheduling point (used by harness probes)
}
