#pragma once
// Schedules of the code under test.  Threads it starts and jobs it gives to its
// parallel loops become tasks that run on fibers of their own, one at a time; a
// task can be preempted where it synchronises (locks a mutex, changes an atomic,
// initialises a static).  explore() runs a body under every schedule up to a
// number of preemptions and watches all memory accesses of the tasks: if none of
// two unordered tasks conflict, schedules that differ elsewhere are the same.
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace sched {

struct limits {
  int preemptions_{2};
  long schedules_{20000};
  std::size_t all_orders_{4};  // up to so many tasks in every order
};
struct result {
  long schedules_{0};
  long accesses_{0};
  std::size_t most_tasks_{0};
  long points_{0};  // where a task could have been preempted
  bool complete_{true};
  std::string problem_{};  // a race, a deadlock or differing results
};

result explore(limits const&, std::function<std::string()> const& body);

// processors the code under test believes to have
void processors(unsigned);
// called instead of utl's parallel loops
void loop(std::size_t n, std::function<void(std::size_t)> const&);

}  // namespace sched
