// A controlled scheduler and happens-before race detector for the instrumented
// build (variant "acc").  See mcrt.cc.
#pragma once
#include <functional>
#include <string>
#include <vector>
#include <cstdint>

namespace mc {

struct Scenario {
  std::function<void()> setup;                          // runs alone, before the threads
  std::vector<std::function<std::string()>> bodies;     // one per thread; returns what it observed
  std::function<std::string()> after;                   // runs alone, after the threads
};

struct Result {
  uint64_t schedules = 0, steps = 0, accesses = 0, syncAddrs = 0;
  bool complete = true;                                 // all schedules within the preemption bound
  std::string problem;                                  // empty if none
  std::string schedule;                                 // of the problem
  std::vector<std::string> results;                     // of the bodies, then of after, run alone in order
};

// Explores every schedule with at most `preempt` preemptions (-1: no limit).
// Expected results of body i are those of running it with no other thread.
Result explore(const Scenario& s, int preempt, uint64_t maxSchedules, const std::string& only);

}
