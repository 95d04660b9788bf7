// N01 (.exit): the same calls give the same while a thread or the process ends, when thread-local and static objects
// have been destroyed which came to life after the caller's own.  Each case is a process of its own.
#include <sys/wait.h>
#include <thread>
#include "cases.h"

namespace {
const size_t CASES = 24;
struct Late {        // what is left to be done at the end
  std::vector<std::unique_ptr<Case>> kept;       // runners used before
  std::vector<Out> first;
  uint64_t seed = 0, idx = 0;
  const char *name = nullptr;
  int fd = -1;

  void say(const std::string &s) { if (fd >= 0 && write(fd, s.data(), s.size())) {} }
  static Out once(Case &e, bool fresh) {
    Out o;
    try {
      if (fresh) { e.fresh(); e.decode(); }
      e.run(o);
    } catch (const std::exception &x) { o.raised = typeid(x).name(); }
    return o;
  }
  void begin() {
    for (size_t i = 0; i < CASES; ++i) {
      Rng r(seed, name_hash("N01.exit"), idx * CASES + i);
      kept.push_back(make(r));
      first.push_back(once(*kept.back(), true));
    }
  }
  void again() {
    if (!name) return;
    for (size_t i = 0; i < kept.size(); ++i) {
      bool on = !first[i].raised.empty();        // a refused one is not there to be run again
      for (int fresh = on ? 1 : 0; fresh < 2; ++fresh) {
        Out o = once(*kept[i], fresh);
        if (!o.same_as(first[i])) { say(std::string(name) + ": " + kept[i]->str() + " gave " + first[i].str() + " and gives" + (fresh ? " on a new runner" : "") + " " + o.str()); return; }
      }
    }
    kept.clear();
    say("+");
  }
};
struct AtEnd : Late { ~AtEnd() { again(); } };
AtEnd at_end __attribute__((init_priority(101)));        // older than all of the library, hence destroyed after it
Late *in_handler;
void handler() { if (in_handler) { in_handler->again(); delete in_handler; in_handler = nullptr; } }
thread_local AtEnd at_thread_end;

void ending(Late &l, const Ctx &c, const char *name, int fd, int k) { l.seed = c.seed; l.idx = c.idx * 4 + (uint64_t)k; l.name = name; l.fd = fd; }
}  // namespace

static void p_exit(Ctx &c) {
  int fd[2];
  if (pipe(fd)) { perror("pipe"); exit(2); }
  c.at("calls in a process that ends");
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (!pid) {
    close(fd[0]);
    alarm(120);
    if (c.idx % 2) {          // a thread goes first, or the process itself
      std::thread t([&] { ending(at_thread_end, c, "thread-local objects being destroyed", fd[1], 0); at_thread_end.begin(); });
      t.join();
    }
    in_handler = new Late;
    ending(*in_handler, c, "in an exit handler", fd[1], 1);
    atexit(handler);
    ending(at_end, c, "static objects being destroyed", fd[1], 2);
    in_handler->begin();
    at_end.begin();
    if (c.idx % 2 == 0) {
      std::thread t([&] { ending(at_thread_end, c, "thread-local objects being destroyed", fd[1], 0); at_thread_end.begin(); });
      t.join();
    }
    ending(at_thread_end, c, "thread-local objects of the main thread being destroyed", fd[1], 3);
    at_thread_end.begin();
    exit(0);
  }
  close(fd[1]);
  std::string said;
  char buf[4096];
  for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;) said.append(buf, (size_t)n);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (c.want_sample()) c.sample("status " + std::to_string(st) + ", " + said);
  for (uint64_t i = 0; i < 4 * CASES; ++i) c.saw(c.idx * 4 * CASES + i + 1);
  if (st) c.fail("died", "the process that ends did so with status " + std::to_string(st) + " after " + said);
  else if (said != "++++") c.fail("differs", said);
  c.count("endings of a thread or process in which calls were made", 4);
}

int main(int argc, char **argv) {
  std::map<std::string, CaseFn> props;
  props["N01.exit"] = p_exit;
  return drive(argc, argv, props);
}
