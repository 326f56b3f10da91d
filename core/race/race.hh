// Memory-access tracing of tasks: the library is compiled with -fsanitize=thread and linked with this runtime
// instead of the sanitizer's. Tasks run one after the other in a chosen order; two accesses of different tasks
// of one epoch (nothing between them orders the tasks) that touch the same byte, not both reading, and without a
// common lock, are dependent transitions that the program does not order: a data race.
#pragma once
#include <cstddef>
#include <cstdint>
#include <set>
#include <string>
#include <vector>
namespace race {
struct Conflict { std::string a, b; bool write_a, write_b; uintptr_t addr; };
void begin_epoch();
void begin_task(int id);     // accesses that follow belong to this task, 1...
void begin_main(int pushed); // ... or to the thread that hands out the tasks, after it has handed out this many
void end_task();
std::vector<Conflict> end_epoch();   // at most one per pair of functions
uint64_t accesses();         // since the process started
uint64_t locks();
}  // namespace race
