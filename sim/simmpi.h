#ifndef SIMMPI_H
#define SIMMPI_H
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace simmpi {

//! All the legal freedom MPI leaves open, fixed by a seed and a few switches.
struct Schedule {
    uint64_t seed = 1;
    int policy = 0;        // 0 run until blocked, 1 random preemption, 2 random priorities, 3 starve one rank, 4 round robin
    int send_mode = 0;     // 0 all sends buffered (eager), 1 mixed, 2 all synchronous (rendezvous)
    int delivery = 0;      // 0 data arrives as early as possible, 1 mixed, 2 as late as possible
    int wait_order = 0;    // 0 lowest index, 1 random, 2 highest index
    bool sync_free = false;// communicator release synchronises its members
};

struct Stats {
    long p2p = 0, p2p_sync = 0, late = 0, collectives = 0, switches = 0, comms_created = 0, zero_p2p = 0, waitany_choices = 0;
    std::vector<long> calls_by_rank;         // MPI calls of each rank
    std::vector<long> sends_by_rank;         // point to point and all-to-all payload elements sent to other ranks
    std::vector<long> sent_bytes, received_bytes; // payload of point to point and all-to-all calls exchanged with other ranks
    std::vector<std::pair<int,int>> links;   // (from, to) pairs with payload, in order (only when record_links)
};

//! Runs body(rank) on nranks simulated ranks; any protocol error is reported through the failure handler (no return).
Stats run(int nranks, Schedule const &sched, std::function<void(int)> const &body);

//! Called (from the failing context) with a description; must not return.
extern void (*failure_handler)(std::string const &msg);

//! The world rank of the calling thread.
int rank();
//! True when called from a simulated rank.
bool inside();
//! A scheduling point that the harness may insert.
void yield();
//! Live requests + communicators + groups of the calling rank.
long live_objects();
//! Current statistics.
Stats& stats();
void record_links(bool on);
//! One communication call as the application made it (only recorded after record_ops(true) before the run).
struct Op { std::string fn; long count; int peer; double time; };
void record_ops(bool on);
//! The recorded calls of the calling rank so far.
std::vector<Op> const& ops();
//! Called with the rank that loses and the rank that gains the processor (per-process globals of the library can be swapped); -1 is none.
extern void (*switch_hook)(int from, int to);
//! Start of the simulated clock.
extern double clock_base;
//! Number of MPI calls made so far by the calling rank.
long my_calls();

}
#endif
