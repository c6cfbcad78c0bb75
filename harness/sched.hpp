// Controlled scheduler: OpenMP teams run as fibers; every synchronisation operation (critical section, loop chunk,
// atomic access, barrier) is a scheduling point; all memory accesses are checked for data races with vector clocks.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace sched {
struct Config {
    std::vector<int> team{2};   // team size of the 1st, 2nd, ... parallel region (last one repeats)
    int preemptions = 1000000;  // bound on preemptive switches per execution
    bool yield_atomics = true;
    unsigned long random_seed = 12345;
};
struct Stats { long long schedules = 0, points = 0, accesses = 0; int max_points = 0; bool capped = false; };
// Runs body under every schedule. body(schedule_number) is called once per execution; check() must be done inside body.
// onrace is called with a description when a race or deadlock was found in the execution just finished.
Stats explore(const Config& c, long long max_schedules, const std::function<void(long long)>& body,
              const std::function<void(const std::string&)>& onproblem);
// Run once, with fixed choices (no exploration).
std::string lastTrace();
void setTeam(const Config& c);   // plain execution with default choices
}
