#include "pbt.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <memory>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

#if defined(__has_feature)
  #if __has_feature(address_sanitizer)
    #define HAVE_ASAN 1
  #endif
#endif
#ifdef __SANITIZE_ADDRESS__
  #define HAVE_ASAN 1
#endif
#ifdef HAVE_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t allocated() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t allocated() { return 0; }
#endif
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=0:detect_stack_use_after_return=0:"
         "malloc_context_size=8:quarantine_size_mb=16:max_allocation_size_mb=4096:strict_string_checks=1";
}
extern "C" const char* __ubsan_default_options() {
  return "print_stacktrace=0:halt_on_error=1:exitcode=99";
}
extern "C" const char* __tsan_default_options() {
  return "exitcode=98:halt_on_error=1:second_deadlock_stack=1:report_signal_unsafe=0:history_size=3";
}

namespace pbt {
constexpr size_t MAXCH = 1 << 16;
struct Shared {
  volatile u64 running;  // case index + 1 while a case runs, 0 otherwise
  volatile u64 done;     // cases finished
  volatile u64 nontrivial;
  volatile u64 overruns;
  volatile u64 failed; // 1: property failed (message below), 2: leak
  volatile u64 n;
  u64 choices[MAXCH];
  char msg[8192];
};

std::vector<Prop>& props() {
  static std::vector<Prop> p;
  return p;
}

static u64 splitmix(u64& s) {
  u64 z = (s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
u64 Case::next64() { return splitmix(m_rng[0]); }

static void record(Shared* s, u64 v) {
  if (s->n >= MAXCH) throw Overrun{};
  s->choices[s->n] = v;
  s->n = s->n + 1;
}
u64 Case::draw(u64 n) {
  if (n == 0) throw std::logic_error("harness: draw(0)");
  u64 v;
  if (m_replay) {
    v = m_pos < m_in.size() ? m_in[m_pos] : 0;
    ++m_pos;
    if (v >= n) v %= n;
  } else {
    v = u64((__uint128_t(next64()) * n) >> 64);
  }
  record(m_shm, v);
  return v;
}
u64 Case::draw64() {
  u64 v;
  if (m_replay) {
    v = m_pos < m_in.size() ? m_in[m_pos] : 0;
    ++m_pos;
  } else {
    v = next64();
  }
  record(m_shm, v);
  return v;
}
u64 Case::bits(int width) {
  const u64 mask = width == 8 ? ~0ULL : ((1ULL << (8 * width)) - 1);
  switch (draw(6)) {
  case 0:
    return below(16) & mask;
  case 1:
    return (0 - below(16)) & mask;
  case 2: { // around a power of two
    u64 b = 1ULL << below(u64(8 * width));
    return (b + below(3) - 1) & mask;
  }
  case 3: { // sign boundaries
    u64 b = 1ULL << (8 * width - 1);
    return (b + below(3) - 1) & mask;
  }
  default:
    return draw64() & mask;
  }
}
double Case::finiteDouble() {
  switch (draw(5)) {
  case 0:
    return double(range(-5, 5));
  case 1:
    return double(range(-1000000, 1000000)) / 1024.0;
  case 2:
    return std::ldexp(double(range(-1000, 1000)), int(range(-300, 300)));
  default: {
    u64 b = floatBits(8, true);
    double d;
    std::memcpy(&d, &b, 8);
    return d;
  }
  }
}
u64 Case::floatBits(int width, bool finite) {
  if (width == 4) {
    static const std::uint32_t special[] = {0u, 0x80000000u, 0x3f800000u, 0xbf800000u, 1u, 0x80000001u, 0x7f7fffffu, 0x00800000u,
                                       0x7f800000u, 0xff800000u, 0x7fc00000u, 0x7fa00001u, 0xffc12345u};
    u64 r;
    switch (draw(4)) {
    case 0: {
      float f = float(range(-50, 50)) / 4;
      std::uint32_t b;
      std::memcpy(&b, &f, 4);
      return b;
    }
    case 1:
      return special[below(finite ? 8 : 13)];
    default:
      r = draw64() & 0xffffffffu;
    }
    if (finite && ((r >> 23) & 0xff) == 0xff) r &= ~(1ULL << 23);
    return r;
  }
  static const u64 special[] = {0ULL, 1ULL << 63, 0x3ff0000000000000ULL, 0xbff0000000000000ULL, 1ULL, 0x8000000000000001ULL,
                                0x7fefffffffffffffULL, 0x0010000000000000ULL, 0x7ff0000000000000ULL, 0xfff0000000000000ULL,
                                0x7ff8000000000000ULL, 0x7ff4000000000001ULL};
  u64 r;
  switch (draw(4)) {
  case 0: {
    double f = double(range(-50, 50)) / 4;
    std::memcpy(&r, &f, 8);
    return r;
  }
  case 1:
    return special[below(finite ? 8 : 12)];
  default:
    r = draw64();
  }
  if (finite && ((r >> 52) & 0x7ff) == 0x7ff) r &= ~(1ULL << 52);
  return r;
}
std::string Case::ident(size_t maxLen) {
  static const char first[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
  static const char rest[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
  size_t n = 1 + below(maxLen);
  std::string s(1, first[below(sizeof(first) - 1)]);
  while (s.size() < n) s += rest[below(sizeof(rest) - 1)];
  return s;
}
std::string Case::text(size_t maxLen) {
  size_t n = count(maxLen);
  std::string s;
  for (size_t i = 0; i < n; ++i) {
    switch (draw(4)) {
    case 3:
      s += char(below(256));
      break;
    case 2:
      s += " \t\n\"\\{}[]:,%/"[below(14)];
      break;
    default:
      s += char('a' + below(26));
    }
  }
  return s;
}
void Case::addLog(const std::string& s) {
  if (m_log.size() < 200000) {
    m_log += s;
    m_log += '\n';
  }
}
std::string demangle(const char* n) {
  int st = 0;
  char* d = abi::__cxa_demangle(n, nullptr, nullptr, &st);
  std::string r = d ? d : n;
  std::free(d);
  return r;
}

// ------------------------------------------------------------------ running one case
enum Outcome { Pass, Failed, OverrunOut };
static Outcome runOnce(const Prop& p, Case& c, std::string& msg) {
  try {
    p.fn(c);
    return Pass;
  } catch (const Fail& f) {
    msg = f.msg;
    return Failed;
  } catch (const Overrun&) {
    return OverrunOut;
  } catch (const std::exception& e) {
    msg = std::string("unexpected exception ") + demangle(typeid(e).name()) + ": " + e.what();
    return Failed;
  } catch (...) {
    msg = "unexpected exception of unknown type";
    return Failed;
  }
}
static int g_cpuLimit = 30, g_wallLimit = 240;
static void armTimer() {
  struct itimerval t {};
  t.it_value.tv_sec = g_cpuLimit;
  setitimer(ITIMER_PROF, &t, nullptr);
  alarm(unsigned(g_wallLimit));
}
static u64 hashStr(const char* s) {
  u64 h = 1469598103934665603ULL;
  for (; *s; ++s) h = (h ^ u64((unsigned char)*s)) * 1099511628211ULL;
  return h;
}
static void setupRandom(Case& c, const Prop& p, u64 seed, u64 idx) {
  u64 s = seed * 0x9e3779b97f4a7c15ULL + hashStr(p.name);
  u64 a = splitmix(s);
  u64 b = a ^ (idx * 0xd6e8feb86659fd93ULL);
  c.m_rng[0] = splitmix(b) + idx;
  c.m_index = idx;
  c.m_size = int((idx * 37) % 100) + 1;
}
/// runs the case (with leak check if wanted); on failure writes to shared memory and returns false
static bool runChecked(const Prop& p, Case& proto, Shared* shm) {
  shm->n = 0;
  std::string msg;
  Outcome o;
  size_t before = allocated();
  {
    o = runOnce(p, proto, msg);
  }
  if (o == OverrunOut) {
    shm->overruns = shm->overruns + 1;
    return true;
  }
  if (o == Failed) {
    snprintf(shm->msg, sizeof(shm->msg), "%s", msg.c_str());
    shm->failed = 1;
    return false;
  }
  if (p.leakCheck && !proto.m_logging) {
    size_t growth = allocated() - before;
    if (long(growth) > 0) {
      // caches may grow once; a leak grows on every run of the same case
      std::vector<u64> ch(shm->choices, shm->choices + shm->n);
      size_t per = 0;
      bool leak = true;
      for (int k = 0; k < 4 && leak; ++k) {
        size_t b2 = allocated();
        {
          Case c2;
          c2.m_shm = shm;
          c2.m_replay = true;
          c2.m_in = ch;
          c2.m_size = proto.m_size;
          c2.m_index = proto.m_index;
          shm->n = 0;
          std::string m2;
          if (runOnce(p, c2, m2) != Pass) {
            snprintf(shm->msg, sizeof(shm->msg), "fails when the same case runs again in one process: %s", m2.c_str());
            shm->failed = 1;
            return false;
          }
        }
        size_t a2 = allocated();
        if (long(a2 - b2) <= 0)
          leak = false;
        else
          per = a2 - b2;
      }
      if (leak) {
        snprintf(shm->msg, sizeof(shm->msg), "memory leak: every run of this case leaves %zu bytes allocated", per);
        shm->failed = 2;
        return false;
      }
    }
  }
  return true;
}

static Shared* newShared() {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(2);
  }
  return static_cast<Shared*>(p);
}
static std::string g_tmp = "/tmp";
static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static std::string describeStatus(int st) {
  std::ostringstream o;
  if (WIFSIGNALED(st)) {
    if (WTERMSIG(st) == SIGPROF)
      o << "did not finish within " << g_cpuLimit << " s of CPU time";
    else if (WTERMSIG(st) == SIGALRM)
      o << "did not finish within " << g_wallLimit << " s (deadlock?)";
    else
      o << "killed by signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")";
  } else if (WEXITSTATUS(st) == 99)
    o << "address/undefined behaviour sanitizer report";
  else if (WEXITSTATUS(st) == 98)
    o << "thread sanitizer report";
  else
    o << "exit status " << WEXITSTATUS(st);
  return o.str();
}
static std::string readFile(const std::string& f, size_t max = 20000) {
  std::ifstream i(f);
  std::stringstream s;
  s << i.rdbuf();
  auto r = s.str();
  if (r.size() > max) r.resize(max);
  return r;
}
static void redirectStderr(const std::string& f) {
  int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) {
    dup2(fd, 2);
    dup2(fd, 1);
    close(fd);
  }
}

struct RunResult {
  bool failed{false};
  std::string why;
  std::string err;
  std::string log;
  std::vector<u64> used;
};
/// run one choice sequence in a child
static RunResult runForked(const Prop& p, const std::vector<u64>& ch, int size, u64 index, bool logging = false) {
  static Shared* shm = newShared();
  std::memset((void*)shm, 0, offsetof(Shared, choices));
  shm->msg[0] = 0;
  const std::string errf = g_tmp + "/child.err", logf = g_tmp + "/child.log";
  if (logging) unlink(logf.c_str());
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    redirectStderr(errf);
    armTimer();
    Case c;
    c.m_shm = shm;
    c.m_replay = true;
    c.m_in = ch;
    c.m_size = size;
    c.m_index = index;
    c.m_logging = logging;
    bool ok = runChecked(p, c, shm);
    if (logging) {
      std::ofstream o(logf);
      o << c.m_log;
    }
    _exit(ok ? 0 : 42);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  RunResult r;
  r.used.assign(shm->choices, shm->choices + shm->n);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return r;
  r.failed = true;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 42)
    r.why = shm->msg;
  else {
    r.why = describeStatus(st);
    r.err = readFile(errf);
    auto pos = r.err.find("SUMMARY");
    if (pos != std::string::npos) r.why += ": " + r.err.substr(pos, r.err.find('\n', pos) - pos);
    pos = r.err.find("runtime error:");
    if (pos != std::string::npos) {
      auto b = r.err.rfind('\n', pos);
      b = b == std::string::npos ? 0 : b + 1;
      r.why += ": " + r.err.substr(b, r.err.find('\n', pos) - b);
    }
  }
  if (logging) r.log = readFile(logf, 100000);
  return r;
}

static std::vector<u64> shrink(const Prop& p, std::vector<u64> best, int size, u64 index, double budget, size_t& runs) {
  const double t0 = now();
  auto tryIt = [&](const std::vector<u64>& cand) {
    ++runs;
    auto r = runForked(p, cand, size, index);
    if (!r.failed) return false;
    auto used = r.used;
    // what the run really used, trailing zeros dropped (they are the default)
    std::vector<u64> nb = cand;
    if (!used.empty() && used.size() < nb.size()) nb = used;
    while (!nb.empty() && nb.back() == 0) nb.pop_back();
    best = nb;
    return true;
  };
  auto left = [&] { return now() - t0 < budget && runs < 4000; };
  bool progress = true;
  while (progress && left()) {
    progress = false;
    // truncate
    for (size_t keep : {best.size() / 8, best.size() / 4, best.size() / 2, best.size() * 3 / 4}) {
      if (!left() || keep >= best.size()) continue;
      std::vector<u64> c(best.begin(), best.begin() + long(keep));
      if (tryIt(c)) {
        progress = true;
        break;
      }
    }
    // delete blocks
    for (size_t blk : {64, 32, 16, 8, 5, 4, 3, 2, 1}) {
      for (size_t i = best.size(); i-- > 0 && left();) {
        if (i + blk > best.size()) continue;
        std::vector<u64> c(best);
        c.erase(c.begin() + long(i), c.begin() + long(i + blk));
        if (tryIt(c)) {
          progress = true;
          i = std::min(i, best.size());
        }
      }
    }
    // zero blocks, then single values
    for (size_t blk : {8, 1}) {
      for (size_t i = 0; i + blk <= best.size() && left(); i += blk) {
        if (std::all_of(best.begin() + long(i), best.begin() + long(i + blk), [](u64 v) { return v == 0; })) continue;
        std::vector<u64> c(best);
        std::fill(c.begin() + long(i), c.begin() + long(i + blk), 0);
        if (tryIt(c)) progress = true;
      }
    }
    // lower values
    for (size_t i = 0; i < best.size() && left(); ++i) {
      u64 lo = 0;
      while (i < best.size() && best[i] > lo && left()) {
        u64 mid = lo + (best[i] - lo) / 2;
        std::vector<u64> c(best);
        c[i] = mid;
        if (tryIt(c))
          progress = true;
        else
          lo = mid + 1;
      }
    }
  }
  return best;
}

static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += char(ch);
    } else if (ch == '\n')
      o += "\\n";
    else if (ch < 0x20 || ch >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else
      o += char(ch);
  }
  return o + "\"";
}

struct Options {
  std::string prop, out, replay;
  u64 seed{1}, cases{1000};
  double time{600}, shrinkTime{60};
  int workers{8}, confirm{3}, samples{4};
  bool flaky{false}; // schedule dependent: a failure may need several runs to show again
};

/// deterministic re-execution of the cases of one worker up to and including `upto`
static RunResult rerunRange(const Prop& p, const Options& o, u64 w, u64 upto) {
  static Shared* shm = newShared();
  std::memset((void*)shm, 0, offsetof(Shared, choices));
  shm->msg[0] = 0;
  const std::string errf = g_tmp + "/range.err";
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    redirectStderr(errf);
    for (u64 i = w; i <= upto; i += u64(o.workers)) {
      armTimer();
      Case c;
      c.m_shm = shm;
      setupRandom(c, p, o.seed, i);
      if (!runChecked(p, c, shm)) _exit(42);
    }
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  RunResult r;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return r;
  r.failed = true;
  r.why = WIFEXITED(st) && WEXITSTATUS(st) == 42 ? std::string(shm->msg) : describeStatus(st);
  r.err = readFile(errf);
  return r;
}

static int runProp(const Prop& p, const Options& o) {
  const double t0 = now();
  std::vector<Shared*> shm;
  std::vector<pid_t> pid;
  const double deadline = t0 + o.time;
  for (int w = 0; w < o.workers; ++w) shm.push_back(newShared());
  for (int w = 0; w < o.workers; ++w) {
    pid_t id = fork();
    if (id == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      const std::string base = g_tmp + "/w" + std::to_string(w);
      redirectStderr(base + ".err");
      std::map<std::string, u64> labels;
      std::unordered_set<u64> distinct;
      std::vector<std::string> samples;
      u64 evals = 0, nontriv = 0;
      for (u64 i = u64(w); i < o.cases; i += u64(o.workers)) {
        if (now() > deadline) break;
        armTimer();
        Shared* s = shm[size_t(w)];
        Case c;
        c.m_shm = s;
        setupRandom(c, p, o.seed, i);
        s->running = i + 1;
        if (!runChecked(p, c, s)) {
          _exit(42);
        }
        ++evals;
        for (auto& [k, v] : c.m_labels) labels[k] += v ? 1 : 0;
        if (c.m_nontrivial) {
          ++nontriv;
          u64 h = 14695981039346656037ULL;
          for (size_t k = 0; k < s->n; ++k) h = (h ^ s->choices[k]) * 1099511628211ULL + (h >> 29);
          distinct.insert(h);
          if (int(samples.size()) < o.samples && w < 2) {
            Case l;
            std::vector<u64> ch(s->choices, s->choices + s->n);
            l.m_shm = s;
            l.m_replay = true;
            l.m_in = ch;
            l.m_size = c.m_size;
            l.m_index = i;
            l.m_logging = true;
            std::string m;
            s->n = 0;
            runOnce(p, l, m);
            if (l.m_log.size() > 1200) {
              l.m_log.resize(1200);
              l.m_log += "...";
            }
            samples.push_back("case " + std::to_string(i) + ": " + l.m_log);
          }
        }
        s->done = evals;
      }
      shm[size_t(w)]->running = 0;
      std::ofstream f(base + ".stat");
      f << evals << ' ' << nontriv << ' ' << shm[size_t(w)]->overruns << '\n';
      f << labels.size() << '\n';
      for (auto& [k, v] : labels) f << v << ' ' << k << '\n';
      f << distinct.size() << '\n';
      for (auto h : distinct) f << h << '\n';
      f << samples.size() << '\n';
      for (auto& s : samples) {
        f << s.size() << '\n' << s << '\n';
      }
      f.close();
      _exit(0);
    }
    pid.push_back(id);
  }
  // wait; on the first failure stop the others
  int failedWorker = -1, failStatus = 0;
  int alive = o.workers;
  while (alive > 0) {
    int st = 0;
    pid_t id = waitpid(-1, &st, 0);
    if (id < 0) break;
    auto it = std::find(pid.begin(), pid.end(), id);
    if (it == pid.end()) continue;
    --alive;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      if (failedWorker < 0) {
        failedWorker = int(it - pid.begin());
        failStatus = st;
        for (auto q : pid)
          if (q != id) kill(q, SIGKILL);
      }
    }
  }
  u64 evals = 0, nontriv = 0, overruns = 0;
  std::map<std::string, u64> labels;
  std::unordered_set<u64> distinct;
  std::vector<std::string> samples;
  for (int w = 0; w < o.workers; ++w) {
    std::ifstream f(g_tmp + "/w" + std::to_string(w) + ".stat");
    if (!f) {
      evals += shm[size_t(w)]->done;
      continue;
    }
    u64 e, n, ov;
    size_t k;
    f >> e >> n >> ov;
    evals += e;
    nontriv += n;
    overruns += ov;
    f >> k;
    for (size_t i = 0; i < k; ++i) {
      u64 v;
      std::string s;
      f >> v;
      f.get();
      std::getline(f, s);
      labels[s] += v;
    }
    f >> k;
    for (size_t i = 0; i < k; ++i) {
      u64 h;
      f >> h;
      distinct.insert(h);
    }
    f >> k;
    for (size_t i = 0; i < k; ++i) {
      size_t len;
      f >> len;
      f.get();
      std::string s(len, ' ');
      f.read(s.data(), long(len));
      samples.push_back(s);
    }
  }
  std::string failure = "null";
  int rc = 0;
  std::string note;
  if (failedWorker >= 0) {
    Shared* s = shm[size_t(failedWorker)];
    u64 idx = s->running ? s->running - 1 : 0;
    std::string why = WIFEXITED(failStatus) && WEXITSTATUS(failStatus) == 42 ? std::string(s->msg) : describeStatus(failStatus);
    std::string err = readFile(g_tmp + "/w" + std::to_string(failedWorker) + ".err");
    if (!s->running && !(WIFEXITED(failStatus) && WEXITSTATUS(failStatus) == 42)) {
      std::cerr << "worker failed outside of a case: " << why << "\n" << err << "\n";
      return 2;
    }
    int size = int((idx * 37) % 100) + 1;
    std::vector<u64> ch(s->choices, s->choices + s->n);
    // reproduce from the choices alone
    const int attempts = o.flaky ? 60 : 5;
    int hits = 0, tries = 0;
    RunResult last;
    for (; tries < attempts && hits < 1; ++tries) {
      auto r = runForked(p, ch, size, idx);
      if (r.failed) {
        ++hits;
        last = r;
      }
    }
    if (hits) {
      size_t runs = 0;
      auto best = ch;
      if (!o.flaky) best = shrink(p, ch, size, idx, o.shrinkTime, runs);
      // confirm
      hits = 0;
      for (tries = 0; tries < (o.flaky ? 60 : o.confirm) && hits < o.confirm; ++tries) {
        auto r = runForked(p, best, size, idx);
        if (r.failed) {
          ++hits;
          last = r;
        }
      }
      if (hits >= o.confirm || (o.flaky && hits >= 2)) {
        auto lg = runForked(p, best, size, idx, true);
        std::ostringstream f;
        f << "{\"kind\": \"choices\", \"prop\": " << jstr(p.name) << ", \"size\": " << size << ", \"index\": " << idx
          << ", \"message\": " << jstr(last.why) << ", \"first_message\": " << jstr(why) << ", \"shrink_runs\": " << runs
          << ", \"flaky\": " << (o.flaky ? "true" : "false") << ", \"choices\": [";
        for (size_t i = 0; i < best.size(); ++i) f << (i ? ", " : "") << best[i];
        f << "], \"log\": " << jstr(lg.log) << ", \"stderr\": " << jstr(last.err) << "}";
        failure = f.str();
        rc = 1;
      } else
        note = "a failure did not reproduce often enough: " + why;
    }
    if (rc == 0) {
      // the failure may need what earlier cases of the same process left behind
      hits = 0;
      for (tries = 0; tries < (o.flaky ? 6 : 3); ++tries) {
        auto r = rerunRange(p, o, u64(failedWorker), idx);
        if (r.failed) {
          ++hits;
          last = r;
        }
      }
      if (hits >= (o.flaky ? 2 : 3)) {
        std::ostringstream f;
        f << "{\"kind\": \"range\", \"prop\": " << jstr(p.name) << ", \"seed\": " << o.seed << ", \"worker\": " << failedWorker
          << ", \"workers\": " << o.workers << ", \"upto\": " << idx << ", \"message\": " << jstr(last.why)
          << ", \"first_message\": " << jstr(why) << ", \"log\": \"\", \"stderr\": " << jstr(last.err) << "}";
        failure = f.str();
        rc = 1;
      } else
        note += (note.empty() ? "" : "; ") + std::string("unreproducible failure in case ") + std::to_string(idx) + ": " + why + " " + err.substr(0, 3000);
    }
  }
  std::ostringstream js;
  js << "{\"prop\": " << jstr(p.name) << ", \"seed\": " << o.seed << ", \"evaluations\": " << evals
     << ", \"nontrivial\": " << nontriv << ", \"distinct_nontrivial\": " << distinct.size() << ", \"overruns\": " << overruns
     << ", \"wall_s\": " << now() - t0 << ", \"note\": " << jstr(note) << ", \"labels\": {";
  bool first = true;
  for (auto& [k, v] : labels) {
    js << (first ? "" : ", ") << jstr(k) << ": " << v;
    first = false;
  }
  js << "}, \"samples\": [";
  for (size_t i = 0; i < samples.size() && i < size_t(o.samples); ++i) js << (i ? ", " : "") << jstr(samples[i]);
  js << "], \"failure\": " << failure << "}";
  if (o.out.empty())
    std::cout << js.str() << std::endl;
  else {
    std::ofstream f(o.out);
    f << js.str() << "\n";
  }
  return rc;
}
} // namespace pbt

int main(int argc, char** argv) {
  using namespace pbt;
  Options o;
  std::string mode;
  std::vector<u64> choices;
  int size = 100;
  u64 index = 0, worker = 0, upto = 0;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string {
      if (i + 1 >= argc) exit(2);
      return argv[++i];
    };
    if (a == "--list") mode = "list";
    else if (a == "--prop") o.prop = val();
    else if (a == "--seed") o.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--cases") o.cases = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--time") o.time = atof(val().c_str());
    else if (a == "--shrink-time") o.shrinkTime = atof(val().c_str());
    else if (a == "--workers") o.workers = atoi(val().c_str());
    else if (a == "--out") o.out = val();
    else if (a == "--tmp") g_tmp = val();
    else if (a == "--flaky") o.flaky = true;
    else if (a == "--cpu-limit") g_cpuLimit = atoi(val().c_str());
    else if (a == "--wall-limit") g_wallLimit = atoi(val().c_str());
    else if (a == "--choices") {
      mode = "choices";
      std::ifstream f(val());
      u64 v;
      while (f >> v) choices.push_back(v);
    } else if (a == "--size") size = atoi(val().c_str());
    else if (a == "--index") index = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--range") {
      mode = "range";
      worker = strtoull(val().c_str(), nullptr, 10);
      upto = strtoull(val().c_str(), nullptr, 10);
    } else {
      std::cerr << "unknown argument " << a << "\n";
      return 2;
    }
  }
  if (mode == "list") {
    for (auto& p : props()) std::cout << p.name << "\n";
    return 0;
  }
  for (auto& p : props()) {
    if (o.prop != p.name) continue;
    if (mode == "choices") {
      int n = o.flaky ? 60 : 1;
      for (int k = 0; k < n; ++k) {
        auto r = runForked(p, choices, size, index, true);
        if (r.failed) {
          std::cout << "FAILED: " << r.why << "\n--- log\n" << r.log << "--- stderr\n" << r.err << "\n";
          return 1;
        }
      }
      std::cout << "passed\n";
      return 0;
    }
    if (mode == "range") {
      auto r = rerunRange(p, o, worker, upto);
      if (r.failed) {
        std::cout << "FAILED: " << r.why << "\n" << r.err << "\n";
        return 1;
      }
      std::cout << "passed\n";
      return 0;
    }
    return runProp(p, o);
  }
  std::cerr << "no such property: " << o.prop << "\n";
  return 2;
}
