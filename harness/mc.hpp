// Exhaustive-exploration driver shared by all checks.
//
// A check is a list of "spaces". A space is a finite, deterministically
// indexed set of cases; the driver runs every index of every space on the real
// code, in forked worker processes, one fresh process per chunk of consecutive
// indices. A case fails when its oracle says so, when the process dies, or when
// it does not finish. Every failure is run again on its own before it is
// reported, and is written to a replay file.
#pragma once
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace mc {

using u64 = std::uint64_t;

inline double now_s() {
  timespec t{};
  clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}

inline u64 mix(u64 h, u64 v) {
  v = (v + 0x9e3779b97f4a7c15ULL) * 0xff51afd7ed558ccdULL;
  v ^= v >> 32;
  h = ((h << 25) | (h >> 39)) * 0xc4ceb9fe1a85ec53ULL + v;
  h ^= h >> 30;
  h *= 0xbf58476d1ce4e5b9ULL;
  h ^= h >> 27;
  h *= 0x94d049bb133111ebULL;
  h ^= h >> 31;
  return h;
}
inline u64 hash_bits(double d) {
  u64 r = 0;
  std::memcpy(&r, &d, sizeof r);
  return r;
}
template<class V>
u64 hash_seq(u64 h, const V &v) {
  h = mix(h, v.size());
  for (const auto &x : v) h = mix(h, static_cast<u64>(x));
  return h;
}

struct CaseFail : std::runtime_error {
  using std::runtime_error::runtime_error;
};

constexpr int kMaxCounters = 48;
constexpr int kMaxRecords = 64;
constexpr int kMaxWorkers = 64;
inline u64 kTableBits = 24;  // 27 in the thorough tier

struct Record {
  int space;
  u64 idx, chunk_begin;
  int kind;  // 0 oracle, 1 death, 2 timeout
  char msg[1200];
};

struct Slot {
  std::atomic<u64> cur;
  std::atomic<double> since;
  std::atomic<int> active;
};

struct Shared {
  std::atomic<u64> evaluated, transitions, traces, states, saturated;
  std::atomic<u64> counters[kMaxCounters];
  std::atomic<int> n_records;
  Record records[kMaxRecords];
  Slot slots[kMaxWorkers];
};

inline Shared *g_sh = nullptr;
inline std::atomic<u64> *g_table = nullptr;
inline std::vector<std::string> g_counter_names;

inline int counter(const std::string &name) {
  for (size_t i = 0; i < g_counter_names.size(); ++i)
    if (g_counter_names[i] == name) return static_cast<int>(i);
  if (g_counter_names.size() >= kMaxCounters) std::abort();
  g_counter_names.push_back(name);
  return static_cast<int>(g_counter_names.size()) - 1;
}

// Context given to every case
struct Ctx {
  u64 ev = 0, tr = 0, tv = 0;
  u64 cnt[kMaxCounters] = {};
  u64 salt = 0;
  // Called once per explored (abstract) state: counts distinct ones
  void state(u64 h) {
    h = mix(h, salt);
    if (h == 0) h = 1;
    const u64 mask = (u64{1} << kTableBits) - 1;
    u64 p = h & mask;
    for (int probe = 0; probe < 64; ++probe, p = (p + 1) & mask) {
      u64 e = g_table[p].load(std::memory_order_relaxed);
      if (e == h) return;
      if (e == 0) {
        if (g_table[p].compare_exchange_strong(e, h)) {
          g_sh->states.fetch_add(1, std::memory_order_relaxed);
          return;
        }
        if (e == h) return;
      }
    }
    g_sh->saturated.fetch_add(1, std::memory_order_relaxed);
  }
  void trans(u64 n = 1) { tr += n; }
  void trace(u64 n = 1) { tv += n; }
  void count(int c, u64 n = 1) { cnt[c] += n; }
  [[noreturn]] void fail(const std::string &m) const { throw CaseFail(m); }
  void flush() {
    g_sh->evaluated += ev;
    g_sh->transitions += tr;
    g_sh->traces += tv;
    for (size_t i = 0; i < g_counter_names.size(); ++i)
      g_sh->counters[i] += cnt[i];
    ev = tr = tv = 0;
    std::memset(cnt, 0, sizeof cnt);
  }
};

// Mixed-radix decoding of a case index
struct Radix {
  std::vector<u64> dims;
  Radix() = default;
  Radix(std::initializer_list<u64> d) : dims(d) {}
  u64 total() const {
    u64 t = 1;
    for (auto d : dims) t *= d;
    return t;
  }
  std::vector<int> decode(u64 i) const {
    std::vector<int> r(dims.size());
    for (size_t k = dims.size(); k-- > 0;) {
      r[k] = static_cast<int>(i % dims[k]);
      i /= dims[k];
    }
    return r;
  }
};

struct Space {
  std::string name;
  std::string what;  // one-line description of the enumerated set
  u64 size;
  std::function<void(u64, Ctx &)> run;
  std::function<std::string(u64)> describe;
  u64 chunk = 2048;
};

struct Options {
  std::string property;
  std::string level = "model_checking";
  std::string rule;
  std::vector<std::string> assumptions;
  double case_timeout = 60.0;
  double rerun_timeout = 120.0;
  bool fork_always = true;
  std::string states_meaning, transitions_meaning, traces_meaning;
};

inline std::string json_escape(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 0x20) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o;
}

inline std::string getenv_or(const char *n, const std::string &d) {
  const char *v = std::getenv(n);
  return v && *v ? std::string(v) : d;
}

inline bool is_thorough() { return getenv_or("VERIF_TIER", "quick") == "thorough"; }

struct NullBuf : std::streambuf {
  int overflow(int c) override { return c; }
  std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
};

inline void silence_cout() {
  static NullBuf nb;
  std::cout.rdbuf(&nb);
}

// Runs one case, turning exceptions into a message. Returns empty if it held.
inline std::string run_case(const Space &s, u64 idx, Ctx &ctx) {
  try {
    s.run(idx, ctx);
  } catch (const CaseFail &e) {
    return std::string(e.what()).empty() ? "failed" : e.what();
  } catch (const std::exception &e) {
    return std::string("unexpected exception: ") + e.what();
  } catch (...) {
    return "unexpected non-standard exception";
  }
  return "";
}

// Runs [from, idx] in a fresh process; true if idx fails (oracle, death or
// timeout). msg receives what happened.
inline bool rerun(
  const std::vector<Space> &spaces, int sp, u64 from, u64 idx, double limit,
  std::string &msg, bool quiet_err
) {
  int fd[2];
  if (pipe(fd) != 0) return false;
  const pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    if (quiet_err) {
      const int dn = open("/dev/null", O_WRONLY);
      if (dn >= 0) dup2(dn, 2);
    }
    silence_cout();
    Ctx ctx;
    std::string m;
    for (u64 i = from; i <= idx; ++i) m = run_case(spaces[sp], i, ctx);
    if (!m.empty()) {
      if (m.size() > 3000) m.resize(3000);
      if (write(fd[1], m.data(), m.size()) < 0) _exit(9);
      _exit(1);
    }
    _exit(0);
  }
  close(fd[1]);
  const double t0 = now_s();
  int st = 0;
  bool timed_out = false;
  for (;;) {
    const pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (now_s() - t0 > limit) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      timed_out = true;
      break;
    }
    usleep(2000);
  }
  char buf[4096];
  const ssize_t n = read(fd[0], buf, sizeof buf);
  close(fd[0]);
  if (timed_out) {
    msg = "did not terminate within " + std::to_string(static_cast<int>(limit)) + " s";
    return true;
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && n > 0) {
    msg.assign(buf, static_cast<size_t>(n));
    return true;
  }
  std::ostringstream o;
  if (WIFSIGNALED(st))
    o << "process died with signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")";
  else
    o << "process died with exit status " << WEXITSTATUS(st) << " (sanitizer report or abort)";
  msg = o.str();
  return true;
}

// Descriptions of the largest meshes take megabytes
inline std::string clipped(std::string s) {
  if (s.size() > 1000) s = s.substr(0, 1000) + " ... (" + std::to_string(s.size()) + " characters)";
  return s;
}

inline int drive(int argc, char **argv, const Options &opt, std::vector<Space> spaces) {
  const double t_start = now_s();
  const std::string verif = getenv_or("VERIF_DIR", "/verif");
  const std::string tier = is_thorough() ? "thorough" : "quick";
  if (is_thorough()) kTableBits = 27;
  const std::string seed = getenv_or("VERIF_SEED", "1");

  // Replay of one recorded case: --replay <file>
  if (argc > 2 && std::string(argv[1]) == "--replay") {
    std::ifstream f(argv[2]);
    std::string line, space;
    u64 from = 0, idx = 0;
    while (std::getline(f, line)) {
      if (line.rfind("space=", 0) == 0) space = line.substr(6);
      if (line.rfind("index=", 0) == 0) idx = std::stoull(line.substr(6));
      if (line.rfind("from=", 0) == 0) from = std::stoull(line.substr(5));
    }
    void *m0 = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_sh = new (m0) Shared();
    g_table = static_cast<std::atomic<u64> *>(mmap(nullptr, sizeof(u64) << kTableBits, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    for (size_t i = 0; i < spaces.size(); ++i)
      if (spaces[i].name == space) {
        std::string msg;
        const bool bad = rerun(spaces, static_cast<int>(i), from, idx, opt.rerun_timeout, msg, false);
        std::printf("%s\n%s\n", spaces[i].describe(idx).c_str(), bad ? ("FAILS: " + msg).c_str() : "holds");
        return bad ? 1 : 0;
      }
    std::fprintf(stderr, "unknown space %s\n", space.c_str());
    return 2;
  }
  int workers = std::atoi(getenv_or("VERIF_JOBS", "0").c_str());
  if (workers <= 0) workers = static_cast<int>(sysconf(_SC_NPROCESSORS_ONLN));
  workers = std::max(1, std::min(workers, kMaxWorkers));

  void *m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) return 2;
  g_sh = new (m) Shared();
  void *tb = mmap(nullptr, sizeof(u64) << kTableBits, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (tb == MAP_FAILED) return 2;
  g_table = static_cast<std::atomic<u64> *>(tb);

  struct Job {
    int space;
    u64 begin, end;   // remaining part
    u64 chunk_begin;  // first index run by the process
  };
  // Explicit work list generator: next chunk
  int gen_space = 0;
  u64 gen_pos = 0;
  std::vector<Job> retry;
  std::vector<double> space_time(spaces.size(), 0.0);
  std::vector<pid_t> pids(workers, 0);
  std::vector<Job> jobs(workers);
  bool stop = false;
  auto next_job = [&](Job &j) -> bool {
    if (stop) return false;
    if (!retry.empty()) {
      j = retry.back();
      retry.pop_back();
      return true;
    }
    while (gen_space < static_cast<int>(spaces.size()) && gen_pos >= spaces[gen_space].size) {
      ++gen_space;
      gen_pos = 0;
    }
    if (gen_space >= static_cast<int>(spaces.size())) return false;
    j.space = gen_space;
    j.begin = j.chunk_begin = gen_pos;
    j.end = std::min(spaces[gen_space].size, gen_pos + spaces[gen_space].chunk);
    gen_pos = j.end;
    return true;
  };
  auto add_record = [&](int sp, u64 idx, u64 cb, int kind, const std::string &msg) {
    const int k = g_sh->n_records.fetch_add(1);
    if (k >= kMaxRecords) return;
    Record &r = g_sh->records[k];
    r.space = sp;
    r.idx = idx;
    r.chunk_begin = cb;
    r.kind = kind;
    std::snprintf(r.msg, sizeof r.msg, "%s", msg.c_str());
  };
  std::fflush(stdout);
  std::fflush(stderr);
  std::cout.flush();
  int live = 0;
  u64 deaths = 0;
  for (;;) {
    for (int w = 0; w < workers; ++w) {
      if (pids[w] != 0) continue;
      Job j{};
      if (!next_job(j)) continue;
      jobs[w] = j;
      g_sh->slots[w].cur = j.begin;
      g_sh->slots[w].since = now_s();
      g_sh->slots[w].active = 1;
      const pid_t pid = fork();
      if (pid < 0) {
        std::perror("fork");
        return 2;
      }
      if (pid == 0) {
        silence_cout();
        const int dn = open("/dev/null", O_WRONLY);
        if (dn >= 0) dup2(dn, 2);
        Ctx ctx;
        ctx.salt = static_cast<u64>(j.space) + 1;
        Slot &sl = g_sh->slots[w];
        for (u64 i = j.begin; i < j.end; ++i) {
          sl.cur.store(i, std::memory_order_relaxed);
          sl.since.store(now_s(), std::memory_order_relaxed);
          const std::string msg = run_case(spaces[j.space], i, ctx);
          ++ctx.ev;
          if (!msg.empty()) {
            add_record(j.space, i, j.chunk_begin, 0, msg);
            if (g_sh->n_records.load() >= kMaxRecords) break;
          }
          if ((i & 255) == 255) ctx.flush();
        }
        ctx.flush();
        sl.active = 0;
        _exit(0);
      }
      pids[w] = pid;
      ++live;
    }
    if (live == 0) break;
    usleep(1000);
    const double t = now_s();
    for (int w = 0; w < workers; ++w) {
      if (pids[w] == 0) continue;
      int st = 0;
      const pid_t r = waitpid(pids[w], &st, WNOHANG);
      bool dead = false;
      int kind = 1;
      std::string why;
      if (r == pids[w]) {
        dead = true;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
          why.clear();
        else
          why = WIFSIGNALED(st) ? std::string("process died with signal ") + strsignal(WTERMSIG(st))
                                : std::string("process died with exit status ") + std::to_string(WEXITSTATUS(st));
      } else if (t - g_sh->slots[w].since.load() > opt.case_timeout && g_sh->slots[w].active.load()) {
        kill(pids[w], SIGKILL);
        waitpid(pids[w], &st, 0);
        dead = true;
        kind = 2;
        why = "did not terminate";
      }
      if (!dead) continue;
      --live;
      pids[w] = 0;
      if (!why.empty()) {
        const u64 cur = g_sh->slots[w].cur.load();
        add_record(jobs[w].space, cur, jobs[w].chunk_begin, kind, why);
        ++deaths;
        if (cur + 1 < jobs[w].end) {
          Job rest = jobs[w];
          rest.begin = rest.chunk_begin = cur + 1;
          retry.push_back(rest);
        }
      }
    }
    if (g_sh->n_records.load() >= 24 || deaths >= 6) stop = true;
  }

  // Confirm
  const int nrec = std::min(g_sh->n_records.load(), kMaxRecords);
  std::vector<Record> recs(g_sh->records, g_sh->records + nrec);
  std::sort(recs.begin(), recs.end(), [](const Record &a, const Record &b) {
    return std::make_pair(a.space, a.idx) < std::make_pair(b.space, b.idx);
  });
  struct Conf {
    Record r;
    u64 from;
    std::string msg;
  };
  std::vector<Conf> confirmed;
  std::vector<Record> unconfirmed;
  for (const auto &r : recs) {
    if (confirmed.size() >= 3) break;
    std::string msg;
    if (r.kind == 2 && !confirmed.empty()) continue;
    if (rerun(spaces, r.space, r.idx, r.idx, opt.rerun_timeout, msg, true)) {
      confirmed.push_back({r, r.idx, msg});
    } else if (r.kind == 2) {
      // slow, not stuck: given more time the case holds
      --deaths;
      g_sh->evaluated.fetch_add(1);
    } else if (r.chunk_begin < r.idx && rerun(spaces, r.space, r.chunk_begin, r.idx, 3 * opt.rerun_timeout, msg, true)) {
      confirmed.push_back({r, r.chunk_begin, msg + " (only after the preceding calls of the same process)"});
    } else {
      unconfirmed.push_back(r);
    }
  }

  // Evidence
  const u64 ev = g_sh->evaluated.load();
  u64 total = 0;
  for (const auto &s : spaces) total += s.size;
  const bool exhaustive = !stop && ev >= total - std::min<u64>(total, deaths);
  mkdir((verif + "/evidence").c_str(), 0755);
  std::ostringstream js;
  js << "{\n \"property\": \"" << opt.property << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << std::atoi(seed.c_str())
     << ",\n \"level\": \"" << opt.level << "\",\n \"coverage\": {\n";
  if (opt.level == "model_checking") {
    js << "  \"states\": " << g_sh->states.load() << ",\n  \"transitions\": " << g_sh->transitions.load()
       << ",\n  \"traces_validated_against_impl\": " << g_sh->traces.load() << ",\n";
    js << "  \"meaning\": {\"states\": \"" << json_escape(opt.states_meaning) << "\", \"transitions\": \"" << json_escape(opt.transitions_meaning)
       << "\", \"traces_validated_against_impl\": \"" << json_escape(opt.traces_meaning) << "\"},\n";
    js << "  \"cases\": " << ev << ",\n";
  } else {
    js << "  \"evaluations\": " << ev << ",\n  \"distinct_nontrivial\": " << g_sh->states.load() << ",\n  \"transitions\": " << g_sh->transitions.load() << ",\n";
  }
  js << "  \"rule\": \"" << json_escape(opt.rule) << "\",\n";
  js << "  \"exhaustive\": " << (exhaustive ? "true" : "false") << ",\n";
  if (g_sh->saturated.load()) js << "  \"state_table_overflow\": " << g_sh->saturated.load() << ",\n";
  js << "  \"spaces\": [";
  for (size_t i = 0; i < spaces.size(); ++i)
    js << (i ? ", " : "") << "{\"name\": \"" << json_escape(spaces[i].name) << "\", \"cases\": " << spaces[i].size << ", \"what\": \"" << json_escape(spaces[i].what) << "\"}";
  js << "],\n  \"outcomes\": {";
  for (size_t i = 0; i < g_counter_names.size(); ++i)
    js << (i ? ", " : "") << "\"" << json_escape(g_counter_names[i]) << "\": " << g_sh->counters[i].load();
  js << "},\n  \"samples\": [";
  bool first = true;
  for (const auto &s : spaces) {
    if (s.size == 0) continue;
    const u64 k = s.size == 1 ? 0 : (s.size * 2) / 3;
    js << (first ? "" : ", ") << "\"" << json_escape(s.name + "[" + std::to_string(k) + "]: " + clipped(s.describe(k))) << "\"";
    first = false;
  }
  js << "]\n },\n";
  if (!opt.assumptions.empty()) {
    js << " \"assumptions\": [";
    for (size_t i = 0; i < opt.assumptions.size(); ++i)
      js << (i ? ", " : "") << "\"" << json_escape(opt.assumptions[i]) << "\"";
    js << "],\n";
  }
  const double t0env = std::atof(getenv_or("VERIF_T0", "0").c_str());
  double wall = now_s() - t_start;
  if (t0env > 0) {
    timespec rt{};
    clock_gettime(CLOCK_REALTIME, &rt);
    wall = static_cast<double>(rt.tv_sec) + 1e-9 * static_cast<double>(rt.tv_nsec) - t0env;
  }
  js << " \"wall_s\": " << wall << ",\n \"violations\": " << confirmed.size() << "\n}\n";
  {
    std::ofstream f(verif + "/evidence/" + opt.property + ".json");
    f << js.str();
    if (!f) return 2;
  }
  std::printf("%s %s: %llu of %llu cases, %llu states, %llu transitions, %llu traces, %.1f s\n", opt.property.c_str(), tier.c_str(),
              (unsigned long long)ev, (unsigned long long)total, (unsigned long long)g_sh->states.load(),
              (unsigned long long)g_sh->transitions.load(), (unsigned long long)g_sh->traces.load(), now_s() - t_start);
  for (size_t i = 0; i < g_counter_names.size(); ++i)
    std::printf("  %-40s %llu\n", g_counter_names[i].c_str(), (unsigned long long)g_sh->counters[i].load());

  if (!confirmed.empty()) {
    mkdir((verif + "/replay").c_str(), 0755);
    int k = 0;
    for (const auto &c : confirmed) {
      const std::string path = verif + "/replay/" + opt.property + "-" + std::to_string(k++) + ".txt";
      std::ofstream f(path);
      f << "property=" << opt.property << "\ntier=" << tier << "\nspace=" << spaces[c.r.space].name << "\nindex=" << c.r.idx << "\nfrom=" << c.from
        << "\nreplay with: VERIF_TIER=" << tier << " bin/check " << opt.property << " --replay " << path << "\nwhat: " << c.msg << "\n\n"
        << spaces[c.r.space].describe(c.r.idx) << "\n";
      f.close();
      std::printf("VIOLATION property=%s replay=%s\n  %s\n", opt.property.c_str(), path.c_str(), c.msg.c_str());
    }
    return 1;
  }
  if (!unconfirmed.empty()) {
    std::printf("check error: %zu failures could not be reproduced, first: %s[%llu] %s\n", unconfirmed.size(),
                spaces[unconfirmed[0].space].name.c_str(), (unsigned long long)unconfirmed[0].idx, unconfirmed[0].msg);
    return 3;
  }
  if (!exhaustive) {
    std::printf("check error: exploration incomplete\n");
    return 3;
  }
  return 0;
}

}  // namespace mc
