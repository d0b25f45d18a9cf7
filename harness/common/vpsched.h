// A deterministic cooperative scheduler for the threads of the code under test. It is linked in front of libc's pthread
// functions, so every mutex, condition variable, reader/writer lock, thread start/join, sleep and clock read of the
// unmodified sources becomes a scheduling point; exactly one thread runs at a time and a seed fixes the whole schedule.
#ifndef VPSCHED_H
#define VPSCHED_H
#include <cstdint>
#include <functional>
#include <string>
namespace vp {
struct SchedOptions {
  uint64_t seed = 1;
  int mode = -1;             // 0 uniform, 1 weighted threads, 2 priorities with change points; -1 chosen from the seed
  uint64_t max_steps = 60000;
};
enum class Outcome { DONE, DEADLOCK, LIVELOCK };
/// Runs fn as a controlled thread. `onHang` is called (from the thread that noticed) when no progress is possible; it must not return.
void runControlled(const SchedOptions& o, const std::function<void()>& fn, const std::function<void(Outcome, const std::string&)>& onHang);
/// An extra scheduling point
void point();
/// Blocks the calling controlled thread until pred() holds (evaluated by whichever thread schedules).
void waitUntil(const std::function<bool()>& pred);
bool controlled();
int threadId();
uint64_t steps();
uint64_t schedHash();
int threadsSeen();
}
#endif
