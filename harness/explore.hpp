// Fork-based stateless exhaustive explorer.
//
// The code under test runs in this process.  Whenever the environment has a
// choice it calls ex::choose(n): option 0 is the default, every other option
// costs one deviation.  choose() forks the whole process once per alternative
// option, so that every choice sequence with at most `budget` deviations is
// executed exactly once, each of them on the real code; prefixes are shared
// (the fork is the snapshot), nothing is sampled.
//
// ex::branch(n) is a choice that costs nothing (full enumeration).
//
// A violation (ex::fail), an abort/segfault/assert/exit inside the code under
// test, or CPU exhaustion of one execution is recorded in shared memory with
// the choice trace; `--replay "1,0,2"` re-runs precisely that trace.
#pragma once
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace ex {

struct Shared {
  std::atomic<long> execs, choice_points, forks, transitions, events, running;
  std::atomic<long> distinct, cutoff, nontrivial;
  std::atomic<int> viol;
  char vmsg[6144];
  char vtrace[8192];
  char vscen[1024];
  char sample[3][1024];
  std::atomic<int> nsample;
  std::atomic<uint64_t> table[1 << 22]; // visited state hashes
};

inline Shared *S = nullptr;
inline int g_budget = 0;
inline int g_maxproc = 8;
inline bool g_replay = false;
inline std::vector<int> g_replay_trace;
inline size_t g_replay_pos = 0;
inline int g_trace[4096];
inline int g_ntrace = 0;
inline int g_devs = 0;
inline std::vector<pid_t> g_children;
inline char g_scen[1024] = "";
inline bool g_sync_child = false;
inline bool g_finished = false;
inline bool g_in_exec = false;
inline int g_cpu_limit_s = 60;
inline uint64_t g_roll = 0; // hash of everything observed so far by this execution
// exploration stops branching (and says so) at this wall-clock time
inline double deadline() {
  static double d = getenv("VERIF_DEADLINE_AT") ? atof(getenv("VERIF_DEADLINE_AT")) : 1e18;
  return d;
}
inline bool late() {
  struct timeval tv; // the real time, whatever is preloaded
  syscall(SYS_gettimeofday, &tv, nullptr);
  return tv.tv_sec > deadline();
}

// Counts a state (by hash) the first time it is seen by any execution.
// Returns true if it is new.
inline bool visit(uint64_t h) {
  if (h == 0)
    h = 1;
  g_roll = (g_roll ^ h) * 0x9e3779b97f4a7c15ull;
  g_roll ^= g_roll >> 29;
  const size_t M = (1 << 22) - 1;
  size_t i = (h * 0x9e3779b97f4a7c15ull >> 20) & M;
  for (int k = 0; k < 4096; k++, i = (i + 1) & M) {
    uint64_t cur = S->table[i].load(std::memory_order_relaxed);
    if (cur == h)
      return false;
    if (cur == 0) {
      if (S->table[i].compare_exchange_strong(cur, h)) {
        S->distinct++;
        return true;
      }
      if (cur == h)
        return false;
    }
  }
  return true; // table full: not counted
}

inline void record_violation(const char *msg) {
  int exp = 0;
  if (S->viol.compare_exchange_strong(exp, 1)) {
    strncpy(S->vmsg, msg, sizeof(S->vmsg) - 1);
    strncpy(S->vscen, g_scen, sizeof(S->vscen) - 1);
    char *p = S->vtrace;
    char *e = S->vtrace + sizeof(S->vtrace) - 16;
    // drop trailing zeros: they are the default options
    int n = g_ntrace;
    while (n > 0 && g_trace[n - 1] == 0)
      n--;
    for (int i = 0; i < n && p < e; i++)
      p += snprintf(p, e - p, i ? ",%d" : "%d", g_trace[i]);
    *p = 0;
    S->viol.store(2);
  }
}

inline void wait_children() {
  for (pid_t c : g_children) {
    int st;
    while (waitpid(c, &st, 0) < 0 && errno == EINTR) {
    }
  }
  g_children.clear();
}

// EX_LOG=<file>: one line per execution: scenario, choices, hash of its observations
inline void log_execution() {
  const char *f = getenv("EX_LOG");
  if (!f)
    return;
  std::string l = g_scen;
  l += " [";
  int n = g_ntrace;
  while (n > 0 && g_trace[n - 1] == 0)
    n--;
  for (int i = 0; i < n; i++)
    l += (i ? "," : "") + std::to_string(g_trace[i]);
  char b[32];
  snprintf(b, sizeof b, "] %016llx\n", (unsigned long long)g_roll);
  l += b;
  int fd = open(f, O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd < 0 || write(fd, l.data(), l.size()) != (ssize_t)l.size())
    record_violation("harness: cannot write EX_LOG");
  if (fd >= 0)
    close(fd);
}
[[noreturn]] inline void finish_process(int code) {
  // end of this execution: release the slot, then wait for async children
  g_finished = true;
  if (code == 0)
    log_execution();
  if (!g_sync_child)
    S->running--;
  wait_children();
  _exit(code);
}

[[noreturn]] inline void fail(const char *fmt, ...) {
  char buf[6000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  record_violation(buf);
  S->execs++;
  finish_process(3);
}

inline void crash_handler(int sig) {
  char b[128];
  snprintf(b, sizeof b,
           sig == SIGPROF || sig == SIGXCPU
               ? "execution did not terminate (CPU limit, signal %d)"
               : "code under test died with signal %d (assert/abort/segfault)",
           sig);
  record_violation(b);
  _exit(4);
}
inline void exit_handler() {
  if (g_in_exec && !g_finished) {
    record_violation("code under test called exit()");
    _exit(5);
  }
}

inline void sample(const char *fmt, ...) {
  int k = S->nsample.load();
  if (k >= 3)
    return;
  k = S->nsample++;
  if (k >= 3)
    return;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(S->sample[k], sizeof(S->sample[k]), fmt, ap);
  va_end(ap);
}

inline void arm_timer() {
  struct itimerval it = {{0, 0}, {g_cpu_limit_s, 0}};
  setitimer(ITIMER_PROF, &it, nullptr);
}

// core: returns the option taken by this process
inline int choose_cost(int n, int cost) {
  if (n <= 1)
    return 0;
  if (g_replay) {
    int v = 0;
    if (g_replay_pos < g_replay_trace.size())
      v = g_replay_trace[g_replay_pos];
    g_replay_pos++;
    if (v >= n)
      v = 0;
    if (g_ntrace < 4096)
      g_trace[g_ntrace++] = v;
    return v;
  }
  S->choice_points++;
  if (S->viol.load()) // stop branching once something was found
  {
    if (g_ntrace < 4096)
      g_trace[g_ntrace++] = 0;
    return 0;
  }
  if (g_devs + cost <= g_budget && late()) {
    S->cutoff++;
  } else if (g_devs + cost <= g_budget) {
    for (int o = 1; o < n; o++) {
      if (S->viol.load())
        break;
      bool async = false;
      long r = S->running.load();
      while (r < g_maxproc) {
        if (S->running.compare_exchange_weak(r, r + 1)) {
          async = true;
          break;
        }
      }
      fflush(stdout);
      fflush(stderr);
      pid_t p = fork();
      if (p < 0) {
        perror("fork");
        if (async)
          S->running--;
        usleep(1000);
        o--;
        continue;
      }
      if (p == 0) {
        g_children.clear();
        g_sync_child = !async;
        g_devs += cost;
        if (g_ntrace < 4096)
          g_trace[g_ntrace++] = o;
        S->forks++;
        arm_timer();
        return o;
      }
      if (async) {
        g_children.push_back(p);
      } else {
        int st;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
        }
        if (WIFSIGNALED(st) && !S->viol.load()) {
          g_trace[g_ntrace] = o;
          g_ntrace++;
          char b[128];
          snprintf(b, sizeof b, "execution killed by signal %d", WTERMSIG(st));
          record_violation(b);
          g_ntrace--;
        }
      }
    }
  }
  if (g_ntrace < 4096)
    g_trace[g_ntrace++] = 0;
  return 0;
}
inline int choose(int n) { return choose_cost(n, 1); }
inline int branch(int n) { return choose_cost(n, 0); }

// Run `body` (in a child process, so that the caller stays pristine)
// exhaustively.  Returns true if no violation.
template <class F> bool explore(const std::string &scen, int budget, F body) {
  if (!S) {
    S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                       MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void *)S, 0, sizeof(Shared));
  }
  if (S->viol.load())
    return false;
  if (late()) {
    S->cutoff++;
    return true;
  }
  strncpy(g_scen, scen.c_str(), sizeof(g_scen) - 1);
  g_budget = budget;
  fflush(stdout);
  fflush(stderr);
  S->running = 1;
  pid_t p = fork();
  if (p == 0) {
    g_children.clear();
    g_sync_child = false;
    g_ntrace = 0;
    g_devs = 0;
    signal(SIGSEGV, crash_handler);
    signal(SIGABRT, crash_handler);
    signal(SIGFPE, crash_handler);
    signal(SIGILL, crash_handler);
    signal(SIGBUS, crash_handler);
    signal(SIGPROF, crash_handler);
    atexit(exit_handler);
    g_in_exec = true;
    arm_timer();
    body();
    S->execs++;
    finish_process(0);
  }
  int st;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
  }
  if (WIFSIGNALED(st)) {
    char b[128];
    snprintf(b, sizeof b, "execution killed by signal %d", WTERMSIG(st));
    record_violation(b);
  }
  return S->viol.load() == 0;
}

inline void set_replay(const std::string &t) {
  g_replay = true;
  g_replay_trace.clear();
  const char *p = t.c_str();
  while (*p) {
    g_replay_trace.push_back(strtol(p, (char **)&p, 10));
    if (*p == ',')
      p++;
    else
      break;
  }
}

// machine-readable report consumed by vlib/check.py
inline int report() {
  if (!S) {
    S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                       MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void *)S, 0, sizeof(Shared));
  }
  printf("@stat execs %ld\n", S->execs.load());
  printf("@stat choice_points %ld\n", S->choice_points.load());
  printf("@stat forks %ld\n", S->forks.load());
  printf("@stat transitions %ld\n", S->transitions.load());
  printf("@stat events %ld\n", S->events.load());
  printf("@stat states %ld\n", S->distinct.load());
  printf("@stat nontrivial %ld\n", S->nontrivial.load());
  printf("@stat cutoff %ld\n", S->cutoff.load());
  for (int i = 0; i < 3 && i < S->nsample.load(); i++)
    printf("@sample %s\n", S->sample[i]);
  if (S->viol.load()) {
    printf("@violation %s\n", S->vmsg);
    printf("@scenario %s\n", S->vscen);
    printf("@trace %s\n", S->vtrace);
  }
  fflush(stdout);
  return S->viol.load() ? 1 : 0;
}
} // namespace ex
