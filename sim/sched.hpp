// Seeded scheduler: real threads, one running at a time.  Which one runs is a choice;
// it can change at every memory access of the code under test, at every lock, guard,
// stdio call and at the points a seam names.
#pragma once
#include "sim.hpp"
#include <functional>

namespace sim::sched
{
// runs body(0..n-1) in n threads to completion under the scheduler
void run(int n, const std::function<void(int)>& body);
void point(const char* what); // a seam: another thread may run here
int self();                   // 0..n-1 in a simulated thread, -1 elsewhere
u64 clock();                  // global event sequence number
u64 preemptions();            // switches away from a runnable thread in this run
}
