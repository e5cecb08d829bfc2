// Stateless explicit-state model checker for sequential code.
//
// A scenario is a function of a Ctx.  Every source of nondeterminism in it
// (input shape, operation, configuration, answer of a user callback) is a call
// to Ctx::choose / Ctx::env.  The explorer enumerates, depth first, EVERY
// sequence of answers (env answers only up to the scenario's deviation bound),
// running the real code once per sequence and letting the scenario compare each
// observation with its oracle.  Workers (forked) share the tree by claiming the
// prefixes that end at Ctx::shard().  Aborts, signals, sanitizer reports and
// hangs of the code under test are violations too.  A violation is replayed
// from its choice sequence in a fresh process before it is reported.
#pragma once
#include <cassert>
#include <cstdio>
#include <cstdlib>
namespace mc {
[[noreturn]] inline void eigen_assert_failed(const char *e, const char *f,
                                             int l) {
  fprintf(stderr, "eigen_assert failed: %s (%s:%d)\n", e, f, l);
  abort();
}
} // namespace mc
#ifndef MC_NO_EIGEN_ASSERT
#define eigen_assert(X)                                                        \
  do {                                                                         \
    if (!(X))                                                                  \
      ::mc::eigen_assert_failed(#X, __FILE__, __LINE__);                       \
  } while (0)
#endif
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <malloc.h>
#include <map>
#include <set>
#include <signal.h>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace mc {

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 33;
  return h;
}
inline uint64_t hash_str(const std::string &s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char c : s)
    h = (h ^ c) * 1099511628211ull;
  return h;
}
inline uint64_t hash_double(double d) {
  if (d == 0)
    d = 0;
  if (d != d)
    return 0x7ff8dead;
  float f = float(d); // coarse on purpose: canonical observation
  uint32_t u;
  memcpy(&u, &f, 4);
  return u & ~0xffu;
}

struct Violation {
  std::string key, msg;
};
struct Skip {};
struct Prune {};

constexpr int MAXC = 8192;
struct Point {
  int n, c;
  bool env;
};

struct WorkerShm {
  volatile int scenario;
  volatile int len;
  volatile uint64_t beat;
  volatile uint64_t cur_exec;
  volatile int done;
  int choices[MAXC];
};
constexpr size_t MAXCLAIM = size_t(1) << 22;
struct Shm {
  std::atomic<int> stop;
  WorkerShm w[64];
  // owner (worker + 1) of each split point, in the order of enumeration
  std::atomic<uint8_t> claim[MAXCLAIM];
};
/// Where a worker is among the split points (all workers meet the same ones
/// in the same order).
struct ShardState {
  bool have = false, own = false;
  bool rerun = false; // follow the recorded owners instead of claiming
  size_t next = 0;
  std::vector<int> at;
  std::atomic<uint8_t> *claim = nullptr;
};

struct Stats {
  uint64_t execs = 0, transitions = 0, pruned = 0, max_len = 0;
  std::unordered_set<uint64_t> states;
  std::map<std::string, uint64_t> counts;
  std::map<std::string, std::string> samples;
  std::unordered_map<uint64_t, int> visited;
};

class Ctx {
public:
  std::vector<Point> pts;
  std::vector<int> prefix; // forced choices
  size_t pos = 0;
  int bound = 1 << 30;
  int dev = 0;
  int W = 1, w = 0;
  bool sharded = false;
  bool replaying = false, verbose = false;
  bool thorough = false;
  uint64_t exec_index = 0;
  WorkerShm *shm = nullptr;
  ShardState *split = nullptr;
  Stats *st = nullptr;
  std::string trace; // human readable
  std::vector<std::string> *samples_out = nullptr;

  int choose(int n, const char *label = "") { return choose_(n, label, false); }
  /// Environment answer: 0 is the default; each non-zero answer is a deviation.
  int env(int n, const char *label = "env") { return choose_(n, label, true); }
  template <class T> T pick(const std::vector<T> &v, const char *label = "") {
    return v[size_t(choose(int(v.size()), label))];
  }
  template <class T>
  T pick(std::initializer_list<T> v, const char *label = "") {
    return *(v.begin() + choose(int(v.size()), label));
  }
  bool flip(const char *label = "") { return choose(2, label) == 1; }
  int range(int lo, int hi, const char *label = "") {
    return lo + choose(hi - lo + 1, label);
  }
  /// Split point between workers (the choices so far decide the owner).
  void shard() {
    if (sharded)
      return;
    sharded = true;
    if (W <= 1)
      return;
    std::vector<int> here;
    for (auto &p : pts)
      here.push_back(p.c);
    if (!split->have || here != split->at) {
      const size_t k = split->next++;
      split->have = true;
      split->at = here;
      if (k >= MAXCLAIM)
        split->own = int(k % size_t(W)) == w;
      else {
        uint8_t free_ = 0;
        split->own = split->rerun
                         ? split->claim[k].load() == uint8_t(w + 1)
                         : split->claim[k].compare_exchange_strong(free_, uint8_t(w + 1));
      }
    }
    if (!split->own)
      throw Skip{};
  }
  /// Discard this execution (not in the domain of the property).
  [[noreturn]] void prune() { throw Prune{}; }
  /// State matching: cut this execution if the same canonical state was
  /// already expanded (in this worker) with at least as many steps remaining.
  /// Never cuts while the choices that lead here are still being replayed.
  void visit(uint64_t h, int remaining) {
    if (!st || pos < prefix.size())
      return;
    int &r = st->visited[h]; // stores remaining + 1
    if (r > remaining) {
      st->counts["merged_states"]++;
      throw Prune{};
    }
    r = remaining + 1;
  }
  void step(uint64_t n = 1) {
    if (st)
      st->transitions += n;
  }
  void obs(uint64_t h) {
    if (st)
      st->states.insert(h);
  }
  void count(const std::string &k, uint64_t n = 1) {
    if (st)
      st->counts[k] += n;
  }
  /// Keep one written-out sample per key.
  void sample(const std::string &k, const std::string &text) {
    if (st && st->samples.size() < 40 && !st->samples.count(k))
      st->samples[k] = text;
  }
  [[noreturn]] void fail(const std::string &key, const std::string &msg) {
    throw Violation{key, msg};
  }
  void require(bool ok, const std::string &key, const std::string &msg = "") {
    if (!ok)
      fail(key, msg);
  }
  void note(const std::string &s) {
    if (replaying) {
      trace += s;
      trace += "\n";
    }
  }

private:
  int choose_(int n, const char *label, bool env) {
    if (n <= 0) {
      fprintf(stderr, "mc: choose(%d) at %s\n", n, label);
      exit(3);
    }
    int c = 0;
    if (pos < prefix.size()) {
      c = prefix[pos];
      if (c >= n) {
        fprintf(stderr, "mc: divergence while replaying prefix at %zu (%s): %d of %d\n",
                pos, label, c, n);
        exit(3);
      }
    }
    if (pos >= MAXC - 1) {
      fprintf(stderr, "mc: execution too long\n");
      exit(3);
    }
    pos++;
    pts.push_back({n, c, env});
    if (env && c)
      dev++;
    if (shm) {
      shm->choices[pts.size() - 1] = c;
      shm->len = int(pts.size());
    }
    if (replaying) {
      std::ostringstream os;
      os << "  choice " << pts.size() - 1 << ": " << label << " = " << c << "/"
         << n << (env ? " (env)" : "");
      note(os.str());
    }
    if (st)
      st->transitions++;
    return c;
  }
};

struct Scenario {
  std::string name;
  std::function<void(Ctx &)> run;
  int bound = 1 << 30; // deviation bound
  bool thorough_only = false;
};

struct Known {
  std::string property, key, text;
};

inline double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

inline std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += char(c);
    } else if (c == '\n')
      o += "\\n";
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += char(c);
  }
  return o;
}
inline std::string oneline(std::string s) {
  for (char &c : s)
    if (c == '\n' || c == '\t' || c == '\r')
      c = ' ';
  return s;
}

class Main {
public:
  std::string id, verif, work, tier = "quick";
  int seed = 1;
  std::vector<Scenario> scenarios;
  std::vector<std::string> assumptions;
  std::string note;
  double budget = 300, hang_s = 60;
  int W = 8;
  std::vector<Known> known;
  Shm *shm = nullptr;

  explicit Main(std::string i) : id(std::move(i)) {}
  void add(const std::string &n, std::function<void(Ctx &)> f,
           int bound = 1 << 30, bool thorough_only = false) {
    scenarios.push_back({n, std::move(f), bound, thorough_only});
  }

  void load_known() {
    std::ifstream f(verif + "/known_findings.txt");
    std::string line;
    // KNOWN-FINDING: property=<id> key=<key> :: text
    while (std::getline(f, line)) {
      const std::string p = "KNOWN-FINDING: property=" + id + " key=";
      if (line.compare(0, p.size(), p) != 0)
        continue;
      auto q = line.find(" :: ");
      if (q == std::string::npos)
        continue;
      known.push_back(
          {id, line.substr(p.size(), q - p.size()), line.substr(q + 4)});
    }
  }
  bool is_known(const std::string &key) const {
    for (auto &k : known)
      if (k.key == key)
        return true;
    return false;
  }

  // one execution; returns true when completed normally
  enum Outcome { OK, SKIP, PRUNE, VIOL };
  Outcome exec(Ctx &c, const Scenario &s, Violation &v) {
    try {
      s.run(c);
      return OK;
    } catch (Skip &) {
      return SKIP;
    } catch (Prune &) {
      return PRUNE;
    } catch (Violation &x) {
      v = x;
      return VIOL;
    } catch (std::exception &e) {
      v = {"unexpected-exception", std::string("unexpected exception: ") + e.what()};
      return VIOL;
    }
  }

  static bool next(std::vector<Point> &pts, int bound, std::vector<int> &prefix) {
    // advance to the next choice sequence in DFS order
    for (size_t i = pts.size(); i-- > 0;) {
      Point &p = pts[i];
      if (p.c + 1 >= p.n)
        continue;
      if (p.env) {
        int d = 0;
        for (size_t j = 0; j < i; j++)
          d += (pts[j].env && pts[j].c);
        if (d + 1 > bound)
          continue;
      }
      prefix.clear();
      for (size_t j = 0; j < i; j++)
        prefix.push_back(pts[j].c);
      prefix.push_back(p.c + 1);
      return true;
    }
    return false;
  }

  static void mute() {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    close(fd);
  }

  void worker(int w, int W_, bool skip_known_crash, int64_t stop_at_exec,
              const std::string &suffix) {
    mute();
#ifndef __SANITIZE_ADDRESS__
    mallopt(M_PERTURB, 0xA5);
#endif
    Stats st;
    double t0 = now();
    std::ofstream vf(work + "/viol." + suffix + std::to_string(w));
    std::set<std::string> seen_known;
    bool capped = false;
    uint64_t execs_all = 0;
    std::map<std::string, uint64_t> per;
    ShardState split;
    split.rerun = stop_at_exec >= 0;
    split.claim = shm->claim;
    for (size_t si = 0; si < scenarios.size(); si++) {
      split.have = false;
      auto &s = scenarios[si];
      if (s.thorough_only && tier != "thorough")
        continue;
      std::vector<int> prefix;
      shm->w[w].scenario = int(si);
      for (;;) {
        if (shm->stop.load() && stop_at_exec < 0)
          goto out;
        if ((execs_all & 15) == 0 && now() - t0 > budget) {
          capped = true;
          goto out;
        }
        Ctx c;
        c.W = W_;
        c.w = w;
        c.bound = s.bound;
        c.prefix = prefix;
        c.shm = &shm->w[w];
        c.st = &st;
        c.split = &split;
        c.thorough = tier == "thorough";
        c.exec_index = execs_all;
        shm->w[w].len = 0;
        shm->w[w].cur_exec = execs_all;
        shm->w[w].beat = shm->w[w].beat + 1;
        Violation v;
        Outcome o = exec(c, s, v);
        execs_all++;
        if (o == OK || o == VIOL) {
          if (!c.sharded && w != 0 && W_ > 1) {
            // never reached a split point: owned by worker 0
          } else {
            st.execs++;
            per[s.name]++;
          }
          st.max_len = std::max<uint64_t>(st.max_len, c.pts.size());
        } else if (o == PRUNE)
          st.pruned++;
        if (o == VIOL) {
          bool kn = is_known(v.key);
          if (!kn || !seen_known.count(v.key)) {
            seen_known.insert(v.key);
            vf << si << "\t" << (kn ? 1 : 0) << "\t" << c.exec_index << "\t"
               << oneline(v.key) << "\t" << oneline(v.msg) << "\t";
            for (auto &p : c.pts)
              vf << p.c << ' ';
            vf << "\n" << std::flush;
          }
          if (!kn) {
            shm->stop.store(1);
            goto out;
          }
        }
        if (stop_at_exec >= 0 && int64_t(execs_all) > stop_at_exec)
          goto out;
        if (!next(c.pts, s.bound, prefix))
          break;
      }
    }
  out:
    std::ofstream f(work + "/stats." + suffix + std::to_string(w));
    f << st.execs << " " << st.transitions << " " << st.pruned << " "
      << st.max_len << " " << (capped ? 1 : 0) << "\n";
    f << st.counts.size() << "\n";
    for (auto &k : st.counts)
      f << oneline(k.first) << "\t" << k.second << "\n";
    f << per.size() << "\n";
    for (auto &k : per)
      f << oneline(k.first) << "\t" << k.second << "\n";
    f << st.samples.size() << "\n";
    for (auto &k : st.samples)
      f << oneline(k.first) << "\t" << oneline(k.second) << "\n";
    f.close();
    std::ofstream b(work + "/states." + suffix + std::to_string(w), std::ios::binary);
    for (uint64_t x : st.states)
      b.write(reinterpret_cast<const char *>(&x), 8);
    b.close();
    shm->w[w].done = 1;
    fflush(stdout);
    _exit(0);
  }

  struct Found {
    int scenario = -1;
    bool known = false;
    uint64_t exec = 0;
    std::string key, msg;
    std::vector<int> choices;
    int w = 0;
  };
  std::vector<Found> read_viol(const std::string &suffix, int w) {
    std::vector<Found> r;
    std::ifstream f(work + "/viol." + suffix + std::to_string(w));
    std::string line;
    while (std::getline(f, line)) {
      Found x;
      std::vector<std::string> t;
      std::stringstream ss(line);
      std::string a;
      while (std::getline(ss, a, '\t'))
        t.push_back(a);
      if (t.size() < 5)
        continue;
      x.scenario = atoi(t[0].c_str());
      x.known = t[1] == "1";
      x.exec = strtoull(t[2].c_str(), nullptr, 10);
      x.key = t[3];
      x.msg = t[4];
      x.w = w;
      if (t.size() > 5) {
        std::stringstream cs(t[5]);
        int c;
        while (cs >> c)
          x.choices.push_back(c);
      }
      r.push_back(x);
    }
    return r;
  }

  // Replay one choice sequence in a child. 0: no violation, 1: violation, 2: crash, 3: hang
  int replay_child(int scenario, const std::vector<int> &choices, std::string &out,
                   double limit, int bound_override = -1) {
    (void)bound_override;
    std::string of = work + "/replay.out";
    unlink(of.c_str());
    pid_t p = fork();
    if (p == 0) {
      mute();
#ifndef __SANITIZE_ADDRESS__
      mallopt(M_PERTURB, 0xA5);
#endif
      int efd = open((work + "/replay.err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      dup2(efd, 2);
      Ctx c;
      c.prefix = choices;
      c.replaying = true;
      c.thorough = tier == "thorough";
      c.sharded = true;
      Violation v;
      Outcome o = exec(c, scenarios[size_t(scenario)], v);
      std::ofstream f(of);
      if (o == VIOL)
        f << "VIOL key=" << v.key << " " << v.msg << "\n" << c.trace;
      else
        f << "NOVIOL outcome=" << o << "\n" << c.trace;
      f.close();
      _exit(o == VIOL ? 11 : 10);
    }
    double t0 = now();
    int stt = 0;
    for (;;) {
      pid_t r = waitpid(p, &stt, WNOHANG);
      if (r == p)
        break;
      if (now() - t0 > limit) {
        kill(p, SIGKILL);
        waitpid(p, &stt, 0);
        out = "execution did not terminate within the limit";
        return 3;
      }
      usleep(2000);
    }
    std::ifstream f(of);
    std::stringstream ss;
    ss << f.rdbuf();
    out = ss.str();
    if (WIFEXITED(stt) && WEXITSTATUS(stt) == 10)
      return 0;
    if (WIFEXITED(stt) && WEXITSTATUS(stt) == 11)
      return 1;
    std::ifstream e(work + "/replay.err");
    std::stringstream es;
    es << e.rdbuf();
    out = es.str();
    if (out.size() > 4000)
      out.resize(4000);
    if (WIFEXITED(stt) && WEXITSTATUS(stt) == 3) {
      out = "engine: " + out;
      return 4;
    }
    return 2;
  }

  std::string write_replay(const Found &f, const std::string &how,
                           const std::string &out) {
    std::string dir = verif + "/replays";
    mkdir(dir.c_str(), 0755);
    uint64_t h = hash_str(f.key + how);
    for (int c : f.choices)
      h = mix(h, uint64_t(c));
    char b[32];
    snprintf(b, sizeof b, "%08llx", (unsigned long long)(h & 0xffffffffu));
    std::string path = dir + "/" + id + "-" + b + ".replay";
    std::ofstream o(path);
    o << "property " << id << "\n";
    o << "tier " << tier << "\n";
    o << "scenario " << scenarios[size_t(f.scenario)].name << "\n";
    o << "choices";
    for (int c : f.choices)
      o << ' ' << c;
    o << "\n";
    o << "how " << how << "\n";
    o << "worker " << f.w << " of " << W << " execution " << f.exec << "\n";
    o << "key " << f.key << "\nmessage " << f.msg << "\n---\n" << out << "\n";
    o << "# replay: /verif/check " << id << " --replay " << path << "\n";
    return path;
  }

  int do_replay(const std::string &path) {
    std::ifstream f(path);
    std::string line, sc;
    std::vector<int> ch;
    while (std::getline(f, line)) {
      if (line == "---")
        break;
      std::stringstream ss(line);
      std::string k;
      ss >> k;
      if (k == "scenario")
        ss >> sc;
      else if (k == "tier")
        ss >> tier;
      else if (k == "choices") {
        int c;
        while (ss >> c)
          ch.push_back(c);
      }
    }
    for (size_t i = 0; i < scenarios.size(); i++)
      if (scenarios[i].name == sc) {
        std::string out;
        int r = replay_child(int(i), ch, out, hang_s * 2);
        printf("%s\n", out.c_str());
        if (r == 0) {
          printf("no violation on this tree\n");
          return 0;
        }
        printf("VIOLATION property=%s replay=%s\n", id.c_str(), path.c_str());
        return 1;
      }
    fprintf(stderr, "no such scenario %s\n", sc.c_str());
    return 2;
  }

  int run(int argc, char **argv) {
    const char *v = getenv("MC_VERIF");
    verif = v ? v : "/verif";
    const char *wk = getenv("MC_WORK");
    work = wk ? wk : "/tmp";
    if (const char *t = getenv("VERIF_TIER"))
      tier = t;
    if (const char *s = getenv("VERIF_SEED"))
      seed = atoi(s);
    if (tier == "thorough")
      budget = 780;
    if (const char *b = getenv("MC_BUDGET"))
      budget = atof(b);
    if (const char *b = getenv("MC_WORKERS"))
      W = atoi(b);
    load_known();
    if (const char *only = getenv("MC_ONLY")) {
      std::vector<Scenario> s2;
      for (auto &s : scenarios)
        if (s.name == only)
          s2.push_back(s);
      scenarios = s2;
    }
    for (int i = 1; i + 1 < argc; i++)
      if (std::string(argv[i]) == "--replay")
        return do_replay(argv[i + 1]);
    double t0 = now();
    shm = static_cast<Shm *>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE,
                                  MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    new (&shm->stop) std::atomic<int>(0);
    fflush(stdout);
    fflush(stderr);
    std::vector<pid_t> pid(static_cast<size_t>(W), 0);
    std::vector<uint64_t> beat(static_cast<size_t>(W), 0);
    std::vector<double> last(static_cast<size_t>(W), now());
    for (int w = 0; w < W; w++) {
      pid_t p = fork();
      if (p == 0) {
        int efd = open((work + "/err." + std::to_string(w)).c_str(),
                       O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(efd, 2);
        worker(w, W, false, -1, "");
      }
      pid[size_t(w)] = p;
    }
    std::vector<Found> crashes;
    int alive = W;
    bool engine_error = false;
    while (alive) {
      usleep(3000);
      for (int w = 0; w < W; w++) {
        if (!pid[size_t(w)])
          continue;
        int stt;
        pid_t r = waitpid(pid[size_t(w)], &stt, WNOHANG);
        auto mk = [&](const std::string &key, const std::string &msg) {
          Found f;
          f.scenario = shm->w[w].scenario;
          f.w = w;
          f.exec = shm->w[w].cur_exec;
          f.key = key;
          f.msg = msg;
          int n = shm->w[w].len;
          for (int i = 0; i < n; i++)
            f.choices.push_back(shm->w[w].choices[i]);
          crashes.push_back(f);
          shm->stop.store(1);
        };
        if (r == pid[size_t(w)]) {
          pid[size_t(w)] = 0;
          alive--;
          if (WIFEXITED(stt) && WEXITSTATUS(stt) == 0 && shm->w[w].done)
            continue;
          if (WIFEXITED(stt) && WEXITSTATUS(stt) == 3) {
            engine_error = true;
            shm->stop.store(1);
          } else
            mk("crash", "the code under test crashed");
          continue;
        }
        if (shm->w[w].beat != beat[size_t(w)]) {
          beat[size_t(w)] = shm->w[w].beat;
          last[size_t(w)] = now();
        } else if (now() - last[size_t(w)] > hang_s) {
          mk("hang", "execution did not terminate");
          kill(pid[size_t(w)], SIGKILL);
          last[size_t(w)] = now() + 1e6;
          // will be reaped as a crash as well; drop that duplicate
          int s2;
          waitpid(pid[size_t(w)], &s2, 0);
          pid[size_t(w)] = 0;
          alive--;
        }
      }
    }
    // gather
    Stats tot;
    bool capped = false;
    std::map<std::string, uint64_t> per;
    for (int w = 0; w < W; w++) {
      std::ifstream f(work + "/stats." + std::to_string(w));
      if (!f)
        continue;
      std::string line;
      uint64_t e, t, p, m;
      int cp;
      f >> e >> t >> p >> m >> cp;
      std::getline(f, line);
      tot.execs += e;
      tot.transitions += t;
      tot.pruned += p;
      tot.max_len = std::max(tot.max_len, m);
      capped |= cp;
      for (int part = 0; part < 3; part++) {
        size_t n = 0;
        f >> n;
        std::getline(f, line);
        for (size_t i = 0; i < n; i++) {
          std::getline(f, line);
          auto q = line.find('\t');
          if (q == std::string::npos)
            continue;
          if (part == 0)
            tot.counts[line.substr(0, q)] += strtoull(line.c_str() + q + 1, nullptr, 10);
          else if (part == 1)
            per[line.substr(0, q)] += strtoull(line.c_str() + q + 1, nullptr, 10);
          else if (tot.samples.size() < 40)
            tot.samples[line.substr(0, q)] = line.substr(q + 1);
        }
      }
      std::ifstream b(work + "/states." + std::to_string(w), std::ios::binary);
      uint64_t x;
      while (b.read(reinterpret_cast<char *>(&x), 8))
        tot.states.insert(x);
    }
    std::vector<Found> bad = crashes;
    std::set<std::string> known_hit;
    for (int w = 0; w < W; w++)
      for (auto &x : read_viol("", w)) {
        if (x.known)
          known_hit.insert(x.key);
        else
          bad.push_back(x);
      }
    int rc = 0, nviol = 0;
    if (!bad.empty()) {
      std::sort(bad.begin(), bad.end(), [](const Found &a, const Found &b) {
        return a.choices.size() < b.choices.size();
      });
      bool reported = false;
      for (auto &x : bad) {
        if (reported)
          break;
        std::string out, how;
        int r1 = 0;
        for (int k = 0; k < 3 && !how.size(); k++) {
          r1 = replay_child(x.scenario, x.choices, out, hang_s * 2);
          if (r1 >= 1 && r1 <= 3)
            how = "fresh process, choice sequence";
        }
        if (how.empty() && r1 != 4) {
          // State may leak between executions of one process: replay the
          // worker's whole deterministic execution order up to this point.
          std::string suf = "again.";
          shm->stop.store(0);
          shm->w[x.w].done = 0;
          pid_t p = fork();
          if (p == 0) {
            int efd = open((work + "/err.again").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            dup2(efd, 2);
            worker(x.w, W, false, int64_t(x.exec), suf);
          }
          int stt;
          waitpid(p, &stt, 0);
          bool again = false;
          if (!WIFEXITED(stt) || WEXITSTATUS(stt) != 0)
            again = x.key == "crash";
          for (auto &y : read_viol(suf, x.w))
            if (!y.known && y.exec == x.exec && y.key == x.key)
              again = true;
          if (again) {
            how = "same worker, same order of executions (state carried over "
                  "between executions)";
            out = x.msg;
          }
        }
        if (how.empty()) {
          fprintf(stderr, "mc: violation did not replay: scenario=%s key=%s %s\n",
                  scenarios[size_t(x.scenario)].name.c_str(), x.key.c_str(),
                  x.msg.c_str());
          fprintf(stderr, "%s\n", out.c_str());
          continue;
        }
        std::string path = write_replay(x, how, out);
        printf("scenario %s: key=%s %s\n", scenarios[size_t(x.scenario)].name.c_str(),
               x.key.c_str(), x.msg.c_str());
        if (x.key == "crash" || getenv("MC_VERBOSE"))
          printf("%s\n", out.substr(0, 6000).c_str());
        printf("VIOLATION property=%s replay=%s\n", id.c_str(), path.c_str());
        nviol++;
        rc = 1;
        reported = true;
      }
      if (!reported)
        rc = 2;
    }
    if (engine_error && rc != 1) {
      fprintf(stderr, "mc: engine error, see %s/err.*\n", work.c_str());
      for (int w = 0; w < W; w++) {
        std::ifstream f(work + "/err." + std::to_string(w));
        std::string l;
        for (int i = 0; i < 3 && std::getline(f, l); i++)
          fprintf(stderr, "%s\n", l.c_str());
      }
      rc = 2;
    }
    if (rc != 1)
      for (auto &k : known)
        if (known_hit.count(k.key))
          printf("KNOWN-FINDING: property=%s key=%s %s\n", id.c_str(),
                 k.key.c_str(), k.text.c_str());
    double wall = now() - t0;
    // evidence
    {
      mkdir((verif + "/evidence").c_str(), 0755);
      std::ofstream o(verif + "/evidence/" + id + ".json");
      bool exhaustive = !capped && rc == 0;
      o << "{\n \"property\": \"" << id << "\",\n \"tier\": \"" << tier
        << "\",\n \"seed\": " << seed << ",\n \"level\": \"model_checking\",\n";
      o << " \"coverage\": {\n  \"states\": " << tot.states.size()
        << ",\n  \"transitions\": " << tot.transitions
        << ",\n  \"traces_validated_against_impl\": " << tot.execs
        << ",\n  \"exhaustive\": " << (exhaustive ? "true" : "false")
        << ",\n  \"out_of_domain_executions\": " << tot.pruned
        << ",\n  \"longest_choice_sequence\": " << tot.max_len
        << ",\n  \"capped_by_time\": " << (capped ? "true" : "false")
        << ",\n  \"scenarios\": {";
      bool first = true;
      for (auto &k : per) {
        o << (first ? "" : ", ") << "\"" << jesc(k.first) << "\": " << k.second;
        first = false;
      }
      o << "},\n  \"outcomes\": {";
      first = true;
      for (auto &k : tot.counts) {
        o << (first ? "" : ", ") << "\"" << jesc(k.first) << "\": " << k.second;
        first = false;
      }
      o << "},\n  \"known_findings_hit\": " << known_hit.size()
        << ",\n  \"meaning\": \"" << jesc(note) << "\",\n  \"samples\": [";
      first = true;
      for (auto &k : tot.samples) {
        o << (first ? "" : ", ") << "\"" << jesc(k.first + ": " + k.second) << "\"";
        first = false;
      }
      o << "]\n },\n \"assumptions\": [";
      first = true;
      for (auto &a : assumptions) {
        o << (first ? "" : ", ") << "\"" << jesc(a) << "\"";
        first = false;
      }
      o << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << nviol << "\n}\n";
    }
    printf("%s [%s]: executions=%llu states=%llu transitions=%llu pruned=%llu "
           "longest=%llu exhaustive=%s wall=%.1fs rc=%d\n",
           id.c_str(), tier.c_str(), (unsigned long long)tot.execs,
           (unsigned long long)tot.states.size(),
           (unsigned long long)tot.transitions, (unsigned long long)tot.pruned,
           (unsigned long long)tot.max_len, capped ? "no (time cap)" : "yes", wall, rc);
    if (getenv("MC_VERBOSE")) {
      for (auto &k : per)
        printf("  scenario %s: %llu\n", k.first.c_str(), (unsigned long long)k.second);
      for (auto &k : tot.counts)
        printf("  outcome %s: %llu\n", k.first.c_str(), (unsigned long long)k.second);
    }
    return rc;
  }
};

} // namespace mc

#ifdef __SANITIZE_ADDRESS__
extern "C" inline __attribute__((used)) const char *__asan_default_options() {
  return "abort_on_error=1:detect_leaks=0:allocator_may_return_null=0:"
         "detect_stack_use_after_return=0:handle_segv=1:handle_abort=1";
}
#endif
