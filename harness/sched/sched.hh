// Deterministic cooperative scheduler with virtual time. Threads created by the code under test run one at a time;
// every synchronisation call and every instrumented memory access is a point where a seeded strategy may switch.
#pragma once
#include <cstdint>
namespace sched {
struct Params {
    uint64_t seed = 1;
    int strategy = 0;        // 0 random walk, 1 priorities with random change points (PCT)
    unsigned pMem = 40;      // random walk: probability of a switch at a memory access, in 1/10000
    unsigned pSync = 3000;   // ... at a synchronisation call, in 1/10000
    unsigned pTime = 0;      // probability (1/10000, at synchronisation calls) that a timeout fires although threads can run
    unsigned changes = 3;    // PCT: number of priority changes
    uint64_t length = 20000; // PCT: expected number of points
    uint64_t maxSteps = 3000000;
    int64_t maxVirtualMs = 120000;
};
void start(const Params&);          // the calling thread becomes thread 0
void stop();                        // back to uncontrolled execution (all other threads must be finished)
int64_t nowUs();                    // virtual time since start
void yield();                       // a scheduling point
void sleepUs(int64_t us);           // virtual sleep of the calling thread
void advance(int64_t us);           // time passes without anybody else running
uint64_t steps();
int self();
bool active();
extern void (*onIdle)(int64_t fromUs, int64_t toUs); // called when every thread waits and time is about to advance
}
