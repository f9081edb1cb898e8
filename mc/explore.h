// A small stateless explicit-state explorer.
//
// A scenario is an ordinary function that drives the real implementation and
// calls Ctx::choose(n) wherever its environment, input or next operation has n
// alternatives.  The explorer re-executes the scenario once for every complete
// sequence of choices (depth-first, simplest alternative first), so a scenario
// that returns is an execution, and the set of executions is *all* of them
// within the bounds the scenario states.  Work is divided over processes by
// choice prefix; a process that crashes or stops making progress turns the
// choice sequence it was executing into a violation.
//
// A choice sequence is the replay artefact: "--replay FILE" runs exactly that
// execution and nothing else.
#pragma once
#include <malloc.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <chrono>
#include <cmath>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>

namespace mc {

struct Skip {};  // execution belongs to another worker
struct Prune {};  // choice sequence denotes no case (constraint not satisfied)
struct Violation {
  std::string key, msg;
};

struct Hash {
  uint64_t h = 1469598103934665603ull;
  Hash& raw(const void* p, size_t n) {
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; i++) {
      h ^= c[i];
      h *= 1099511628211ull;
    }
    h ^= h >> 29;
    return *this;
  }
  Hash& add(long long v) { return raw(&v, sizeof v); }
  Hash& add(const std::string& s) { return raw(s.data(), s.size()).add(s.size()); }
  Hash& add(const std::vector<int>& v) {
    for (int x : v) add(x);
    return add(-77 - (long long)v.size());
  }
  // A double observed to a stated number of digits.
  Hash& real(double v, double res = 1e-6) {
    if (!std::isfinite(v)) return add(v != v ? 123457 : (v > 0 ? 123458 : 123459));
    return add((long long)std::llround(v / res));
  }
};

struct Shared;
class Ctx {
 public:
  bool thorough = false;
  bool replaying = false;
  int tier_level() const { return thorough ? 1 : 0; }
  template <class T>
  T pick(T quick, T deep) const { return thorough ? deep : quick; }

  int choose(int n) {
    if (n <= 0) throw Prune();
    size_t d = pos_++;
    if (d < stack_.size()) {
      if (d < fixed_ && arity_check_ && stack_[d].n != n && stack_[d].n != -1) {
        diverged_ = true;
        fprintf(stderr, "DIVERGENCE at depth %zu: %d alternatives, recorded %d\n", d, n, stack_[d].n);
        throw Violation{"nondeterminism", "the same choice prefix met a different number of alternatives"};
      }
      stack_[d].n = n;
      if (stack_[d].c >= n) throw Violation{"replay-divergence", "recorded choice is out of range"};
    } else {
      stack_.push_back({0, n});
    }
    transitions++;
    publish();
    if (!replaying && workers_ > 1 && pos_ == split_) check_shard();
    return stack_[d].c;
  }
  bool flip() { return choose(2) == 1; }
  // i in [lo, hi]
  int range(int lo, int hi) { return lo + choose(hi - lo + 1); }
  template <class T>
  const T& among(const std::vector<T>& v) { return v[choose((int)v.size())]; }
  void require(bool c) { if (!c) throw Prune(); }

  [[noreturn]] void fail(const std::string& key, const std::string& msg) { throw Violation{key, msg}; }
  template <typename F>
  auto check(bool ok, const std::string& key, F f) -> decltype(std::string(f()), void()) {
    if (!ok) fail(key, f());
  }
  void check(bool ok, const std::string& key, const std::string& msg) {
    if (!ok) fail(key, msg);
  }
  // Report without ending this execution.
  void report(const std::string& key, const std::string& msg) { soft_.push_back({key, msg}); }

  // A state of the system under test that this execution reached.
  void state(const Hash& h) { if (states.size() < kMaxStates) states.insert(h.h); }
  // A judged comparison between implementation and oracle.
  void judged(int n = 1) { validated += n; }
  // Case is not trivial in the sense of the scenario's rule.
  void nontrivial() { nontrivial_flag = true; }
  void describe(const std::string& s) { desc_ = s; }
  void count(const std::string& name, long long n = 1) { counters[name] += n; }

  long long transitions = 0, validated = 0;
  bool nontrivial_flag = false;
  std::unordered_set<uint64_t> states;
  std::map<std::string, long long> counters;

  // ---- internals
  struct Ch { int c, n; };
  static constexpr size_t kMaxStates = 4000000;
  std::vector<Ch> stack_;
  size_t pos_ = 0, fixed_ = 0, split_ = 0;
  int workers_ = 1, me_ = 0;
  long long prefix_counter_ = 0;
  bool arity_check_ = true, diverged_ = false;
  std::vector<Violation> soft_;
  std::string desc_;
  Shared* shared_ = nullptr;
  std::vector<int> last_prefix_;
  bool last_prefix_mine_ = false;
  void publish();
  void check_shard();
};

struct Shared {
  volatile long long executions;
  volatile int scenario;
  volatile int len;
  volatile int choices[4096];
  volatile int stop;
};

inline void Ctx::publish() {
  if (!shared_) return;
  size_t d = pos_ - 1;
  if (d < 4096) {
    shared_->choices[d] = stack_[d].c;
    shared_->len = (int)pos_;
  }
}

inline void Ctx::check_shard() {
  // Which prefix of length split_ is this?  Hash the choices themselves, so the
  // division does not depend on what was enumerated before.
  bool mine;
  Hash h;
  for (size_t i = 0; i < split_; i++) h.add(stack_[i].c);
  mine = (int)((h.h >> 7) % workers_) == me_;
  if (!mine) throw Skip();
}

struct Scenario {
  std::string name;
  std::function<void(Ctx&)> body;
  int split = 2;      // choices after which the work is divided
  bool thorough_only = false;
  std::string bounds;  // what the scenario enumerates, in words
};

inline std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

struct Result {
  std::string scenario, key, msg, desc;
  std::vector<int> choices;
};

inline std::string join(const std::vector<int>& v) {
  std::string s;
  for (size_t i = 0; i < v.size(); i++) s += (i ? " " : "") + std::to_string(v[i]);
  return s;
}

inline int g_null = -1;

// Executes one scenario with the choices on c.stack_ as prefix.  Returns: 0 ok,
// 1 violation (in *v), 2 not a case, 3 skipped.
inline int RunOne(const Scenario& s, Ctx& c, std::vector<Violation>* v) {
  c.pos_ = 0;
  c.soft_.clear();
  c.desc_.clear();
  c.nontrivial_flag = false;
  v->clear();
  try {
    s.body(c);
    if (!c.replaying && c.workers_ > 1 && c.pos_ < c.split_ && c.me_ != 0) return 3;
    *v = c.soft_;
    return v->empty() ? 0 : 1;
  } catch (Skip&) {
    return 3;
  } catch (Prune&) {
    return 2;
  } catch (Violation& x) {
    *v = c.soft_;
    v->push_back(x);
  } catch (std::exception& e) {
    *v = c.soft_;
    v->push_back({"exception", std::string("uncaught exception from the implementation: ") + e.what()});
  } catch (const char* e) {
    *v = c.soft_;
    v->push_back({"exception", std::string("uncaught exception from the implementation: ") + e});
  }
  if (!c.replaying && c.workers_ > 1 && c.pos_ < c.split_ && c.me_ != 0) return 3;
  return 1;
}

inline bool Advance(Ctx& c) {
  c.stack_.resize(c.pos_ < c.stack_.size() ? c.pos_ : c.stack_.size());
  while (!c.stack_.empty()) {
    if (c.stack_.back().c + 1 < c.stack_.back().n) {
      c.stack_.back().c++;
      c.fixed_ = c.stack_.size() - 1;
      return true;
    }
    c.stack_.pop_back();
  }
  return false;
}

struct Options {
  bool thorough = false;
  std::string out, replay, known, only;
  int workers = 8;
  double budget = 600;      // wall seconds for the whole run
  double stall = 60;        // seconds without a finished execution = hang candidate
};

inline double Now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

inline int Main(int argc, char** argv, std::vector<Scenario> scenarios) {
  Options o;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--thorough") o.thorough = true;
    else if (a == "--out") o.out = next();
    else if (a == "--replay") o.replay = next();
    else if (a == "--known") o.known = next();
    else if (a == "--only") o.only = next();
    else if (a == "--workers") o.workers = atoi(next().c_str());
    else if (a == "--budget") o.budget = atof(next().c_str());
    else if (a == "--stall") o.stall = atof(next().c_str());
  }
  signal(SIGPIPE, SIG_IGN);
  int saved_out = dup(1);
  int saved_err = dup(2);
  g_null = open("/dev/null", O_WRONLY);
  auto say = [&](const std::string& s) {
    std::string t = s + "\n";
    if (write(saved_out, t.data(), t.size()) < 0) {}
  };

  // ---------------------------------------------------------------- replay
  if (!o.replay.empty()) {
    FILE* f = fopen(o.replay.c_str(), "r");
    if (!f) { fprintf(stderr, "cannot open replay file\n"); return 3; }
    char line[65536];
    std::string name;
    std::vector<int> ch;
    bool thorough = false, have = false;
    while (fgets(line, sizeof line, f)) {
      std::istringstream is(line);
      std::string k;
      is >> k;
      if (k == "scenario") is >> name;
      if (k == "tier") { std::string t; is >> t; thorough = t == "thorough"; }
      if (k == "choices") { int x; while (is >> x) ch.push_back(x); have = true; }
    }
    fclose(f);
    if (!have) return 3;
    for (auto& s : scenarios) {
      if (s.name != name) continue;
      Ctx c;
      c.thorough = thorough;
      c.replaying = true;
      c.arity_check_ = false;
      for (int x : ch) c.stack_.push_back({x, -1});
      if (!getenv("MC_SHOW")) { dup2(g_null, 1); dup2(g_null, 2); }
      std::vector<Violation> v;
      mallopt(M_PERTURB, 0x5a);
      int r = RunOne(s, c, &v);
      std::cout.flush();
      fflush(stdout);
      say("replay: scenario=" + name + " result=" + std::to_string(r) + " " + c.desc_);
      for (auto& x : v) say("  violated [" + x.key + "] " + x.msg);
      return r == 1 ? 1 : 0;
    }
    return 3;
  }

  // --------------------------------------------------------------- explore
  double t0 = Now();
  // Development aid: count every kind of violation instead of stopping at one.
  const bool survey = getenv("MC_SURVEY") != nullptr;
  std::map<std::string, long long> survey_hits;
  std::set<std::string> known;
  if (!o.known.empty()) {
    FILE* f = fopen(o.known.c_str(), "r");
    char line[4096];
    while (f && fgets(line, sizeof line, f)) {
      std::string s(line);
      while (!s.empty() && (s.back() == '\n' || s.back() == ' ')) s.pop_back();
      if (!s.empty()) known.insert(s);
    }
    if (f) fclose(f);
  }
  std::vector<Scenario> todo;
  for (auto& s : scenarios)
    if ((!s.thorough_only || o.thorough) && (o.only.empty() || s.name == o.only)) todo.push_back(s);
  int W = o.workers;
  auto* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared) * W, PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::string base = (o.out.empty() ? std::string("/tmp/mc_out") : o.out) + ".w";

  struct Slot {
    pid_t pid = 0;
    int gen = 0;
    bool done = false;
    long long last_exec = -1;
    double last_time = 0;
  };
  std::vector<Slot> slots(W);
  std::vector<Result> found;
  std::map<std::string, long long> known_hits;
  std::map<std::string, std::string> known_msg;

  auto spawn = [&](int w, int start_scn, std::vector<int> start) {
    Slot& sl = slots[w];
    sl.gen++;
    std::string file = base + std::to_string(w) + "." + std::to_string(sl.gen);
    sh[w].executions = 0;
    sh[w].len = 0;
    sl.last_exec = -1;
    sl.last_time = Now();
    pid_t p = fork();
    if (p) { sl.pid = p; return; }
    // ---- worker
    dup2(g_null, 1);
    if (!getenv("MC_SHOW")) dup2(g_null, 2);
    mallopt(M_PERTURB, 0x5a);
    FILE* f = fopen(file.c_str(), "w");
    for (size_t k = start_scn; k < todo.size(); k++) {
      Ctx c;
      c.thorough = o.thorough;
      c.workers_ = W;
      c.me_ = w;
      c.split_ = todo[k].split > 0 ? todo[k].split : 1;
      c.shared_ = &sh[w];
      sh[w].scenario = (int)k;
      bool more = true;
      if ((int)k == start_scn && !start.empty()) {
        // Resume after a crashed execution: rebuild the stack by running the
        // prefix up to, but not including, its last choice.
        for (int x : start) c.stack_.push_back({x, -1});
        c.arity_check_ = false;
        // Arity of every recorded choice is unknown; find it by advancing the
        // last one and letting choose() reject it if out of range.
        bool ok = false;
        while (!c.stack_.empty()) {
          c.stack_.back().c++;
          c.fixed_ = 0;
          std::vector<Violation> v;
          int r = RunOne(todo[k], c, &v);
          bool out_of_range = false;
          for (auto& x : v) if (x.key == "replay-divergence") out_of_range = true;
          if (out_of_range) { c.stack_.pop_back(); continue; }
          (void)r;
          ok = true;
          break;
        }
        more = ok;
        c.arity_check_ = false;
      }
      long long executions = 0, pruned = 0, nontriv = 0;
      int samples = 0;
      std::map<std::string, int> reported;
      c.transitions = 0;
      bool capped = false;
      while (more) {
        sh[w].len = 0;
        std::vector<Violation> v;
        long long tr0 = c.transitions;
        int r = RunOne(todo[k], c, &v);
        sh[w].executions = sh[w].executions + 1;
        if (r == 3) {
          c.transitions = tr0;
          if (c.pos_ < c.stack_.size()) c.stack_.resize(c.pos_);
        } else if (r == 2) {
          pruned++;
        } else {
          executions++;
          if (c.nontrivial_flag) nontriv++;
          if (r == 0 && c.nontrivial_flag && samples < 2 && !c.desc_.empty()) {
            fprintf(f, "sample %s\n", jesc(todo[k].name + ": " + c.desc_).c_str());
            samples++;
          }
          for (auto& x : v) {
            if (reported[x.key]++ < 3) {
              std::vector<int> ch;
              for (size_t i = 0; i < c.pos_ && i < c.stack_.size(); i++) ch.push_back(c.stack_[i].c);
              fprintf(f, "viol %s\t%s\t%s\t%s\t%s\n", todo[k].name.c_str(), jesc(x.key).c_str(),
                      jesc(x.msg).c_str(), jesc(c.desc_).c_str(), join(ch).c_str());
              fflush(f);
            }
            if (!known.count(x.key) && !survey) { sh[w].stop = 1; }
          }
        }
        if (sh[0].stop || sh[w].stop) { sh[0].stop = 1; capped = true; break; }
        if (Now() - t0 > o.budget) { capped = true; break; }
        more = Advance(c);
      }
      fprintf(f, "stat %s %lld %lld %lld %lld %lld %d\n", todo[k].name.c_str(), executions, pruned, nontriv,
              c.transitions, c.validated, capped ? 1 : 0);
      for (auto& kv : reported) fprintf(f, "rep %s\t%d\n", jesc(kv.first).c_str(), kv.second);
      for (auto& kv : c.counters) fprintf(f, "cnt %s\t%lld\n", (todo[k].name + "." + kv.first).c_str(), kv.second);
      {
        std::string sf = file + ".s" + std::to_string(k);
        FILE* g = fopen(sf.c_str(), "wb");
        for (uint64_t x : c.states) fwrite(&x, 8, 1, g);
        fclose(g);
        fprintf(f, "states %s %s\n", todo[k].name.c_str(), sf.c_str());
      }
      fflush(f);
      if (sh[0].stop) break;
    }
    fclose(f);
    _exit(0);
  };

  auto replay_alone = [&](int scn, const std::vector<int>& ch, double limit, std::string* what) {
    // 0 = fine, 1 = violation, 2 = crash, 3 = hang
    fflush(stdout);
    pid_t p = fork();
    if (!p) {
      dup2(g_null, 1);
      if (!getenv("MC_SHOW")) dup2(g_null, 2);
      mallopt(M_PERTURB, 0x5a);
      Ctx c;
      c.thorough = o.thorough;
      c.replaying = true;
      c.arity_check_ = false;
      for (int x : ch) c.stack_.push_back({x, -1});
      std::vector<Violation> v;
      int r = RunOne(todo[scn], c, &v);
      _exit(r == 1 ? 9 : 0);
    }
    double s = Now();
    int st;
    while (true) {
      pid_t q = waitpid(p, &st, WNOHANG);
      if (q == p) break;
      if (Now() - s > limit) {
        kill(p, SIGKILL);
        waitpid(p, &st, 0);
        *what = "does not terminate within " + std::to_string((int)limit) + " s";
        return 3;
      }
      usleep(20000);
    }
    if (WIFEXITED(st)) {
      int e = WEXITSTATUS(st);
      if (e == 0) return 0;
      if (e == 9) return 1;
      *what = "process exits with status " + std::to_string(e) + " (sanitizer report or abort)";
      return 2;
    }
    *what = std::string("process is killed by signal ") + std::to_string(WTERMSIG(st));
    return 2;
  };

  for (int w = 0; w < W; w++) { sh[w].stop = 0; }
  for (int w = 0; w < W; w++) spawn(w, 0, {});
  bool internal_error = false;
  bool over = false;
  std::map<std::string, int> crash_count;
  while (true) {
    bool alive = false;
    for (int w = 0; w < W; w++) {
      Slot& sl = slots[w];
      if (sl.done) continue;
      alive = true;
      int st = 0;
      pid_t q = waitpid(sl.pid, &st, WNOHANG);
      bool dead = false, hang = false;
      if (q == sl.pid) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { sl.done = true; continue; }
        dead = true;
      } else if (sh[w].executions != sl.last_exec) {
        sl.last_exec = sh[w].executions;
        sl.last_time = Now();
      } else if (Now() - sl.last_time > o.stall) {
        kill(sl.pid, SIGKILL);
        waitpid(sl.pid, &st, 0);
        dead = hang = true;
      }
      if (dead) {
        int scn = sh[w].scenario;
        std::vector<int> ch;
        for (int i = 0; i < sh[w].len && i < 4096; i++) ch.push_back((int)sh[w].choices[i]);
        std::string what;
        int r = replay_alone(scn, ch, hang ? 2 * o.stall : o.stall, &what);
        if (r == 2 || r == 3) {
          std::string key = r == 2 ? "crash" : "hang";
          key += ":" + todo[scn].name;
          crash_count[key]++;
          bool is_known = known.count(key);
          if (is_known) { known_hits[key]++; known_msg[key] = what; }
          else {
            found.push_back({todo[scn].name, key, what, "", ch});
            sh[0].stop = 1;
          }
          if (!is_known || crash_count[key] > 200) { sl.done = true; continue; }
          spawn(w, scn, ch);
        } else if (hang && r == 0) {
          // Slow machine, not a hang: carry on behind it.
          spawn(w, scn, ch);
        } else {
          fprintf(stderr, "worker %d died (status %x) on a case that does not reproduce: %s %s\n", w, st,
                  todo[scn].name.c_str(), join(ch).c_str());
          internal_error = true;
          sl.done = true;
        }
      }
    }
    if (!alive) break;
    if (!over && Now() - t0 > o.budget + 30) { over = true; sh[0].stop = 1; }
    usleep(20000);
  }

  // ----------------------------------------------------------------- merge
  struct Tot { long long ex = 0, pr = 0, nt = 0, tr = 0, va = 0; int cap = 0; std::unordered_set<uint64_t> st; };
  std::map<std::string, Tot> tot;
  std::map<std::string, long long> counters;
  std::vector<std::string> samples;
  std::map<std::string, int> sample_count;
  for (int w = 0; w < W; w++)
    for (int g = 1; g <= slots[w].gen; g++) {
      std::string file = base + std::to_string(w) + "." + std::to_string(g);
      FILE* f = fopen(file.c_str(), "r");
      if (!f) continue;
      static char line[1 << 20];
      while (fgets(line, sizeof line, f)) {
        std::string s(line);
        while (!s.empty() && s.back() == '\n') s.pop_back();
        if (s.compare(0, 5, "stat ") == 0) {
          char n[256]; long long a, b, c, d, e; int cap;
          if (sscanf(s.c_str(), "stat %255s %lld %lld %lld %lld %lld %d", n, &a, &b, &c, &d, &e, &cap) == 7) {
            Tot& t = tot[n];
            t.ex += a; t.pr += b; t.nt += c; t.tr += d; t.va += e; t.cap |= cap;
          }
        } else if (s.compare(0, 7, "states ") == 0) {
          char n[256], p[1024];
          if (sscanf(s.c_str(), "states %255s %1023s", n, p) == 2) {
            FILE* h = fopen(p, "rb");
            uint64_t x;
            while (h && fread(&x, 8, 1, h) == 1) tot[n].st.insert(x);
            if (h) fclose(h);
            unlink(p);
          }
        } else if (s.compare(0, 7, "sample ") == 0) {
          std::string nm = s.substr(7, s.find(':') - 7);
          if (sample_count[nm]++ < 2) samples.push_back(s.substr(7));
        } else if (s.compare(0, 4, "cnt ") == 0) {
          size_t t = s.find('\t');
          counters[s.substr(4, t - 4)] += atoll(s.c_str() + t + 1);
        } else if (s.compare(0, 4, "rep ") == 0) {
          size_t t = s.find('\t');
          std::string key = s.substr(4, t - 4);
          if (known.count(key)) known_hits[key] += atoll(s.c_str() + t + 1);
          survey_hits[key] += atoll(s.c_str() + t + 1);
        } else if (s.compare(0, 5, "viol ") == 0) {
          std::vector<std::string> p;
          std::string rest = s.substr(5), cur;
          for (char ch : rest) { if (ch == '\t') { p.push_back(cur); cur.clear(); } else cur += ch; }
          p.push_back(cur);
          if (p.size() == 5) {
            if (known.count(p[1])) { known_msg[p[1]] = p[2]; }
            else {
              Result r{p[0], p[1], p[2], p[3], {}};
              std::istringstream is(p[4]);
              int x;
              while (is >> x) r.choices.push_back(x);
              found.push_back(r);
            }
          }
        }
      }
      fclose(f);
      unlink(file.c_str());
    }

  if (survey) {
    dup2(saved_err, 2);
    for (auto& kv : survey_hits) {
      say("survey [" + kv.first + "] " + std::to_string(kv.second));
      int shown = 0;
      for (auto& r : found)
        if (r.key == kv.first && shown++ < 3) say("    " + r.scenario + ": " + r.msg + " case: " + r.desc);
    }
  }
  // Confirm by replaying, alone, in a fresh process.
  int confirmed = 0;
  std::vector<Result> conf;
  for (auto& r : found) {
    if (confirmed >= 5) break;
    int scn = -1;
    for (size_t k = 0; k < todo.size(); k++) if (todo[k].name == r.scenario) scn = (int)k;
    std::string what;
    int a = replay_alone(scn, r.choices, 2 * o.stall, &what);
    if (a == 0) {
      fprintf(stderr, "violation does not replay: %s [%s] %s choices %s\n", r.scenario.c_str(), r.key.c_str(),
              r.msg.c_str(), join(r.choices).c_str());
      internal_error = true;
      continue;
    }
    confirmed++;
    conf.push_back(r);
  }

  if (!o.out.empty()) {
    FILE* f = fopen(o.out.c_str(), "w");
    long long ex = 0, nt = 0, tr = 0, va = 0, st = 0, pr = 0;
    int cap = 0;
    for (auto& s : todo) {
      Tot& t = tot[s.name];
      ex += t.ex; nt += t.nt; tr += t.tr; va += t.va; st += (long long)t.st.size(); pr += t.pr; cap |= t.cap;
    }
    if (over) cap = 1;
    fprintf(f, "{\"executions\": %lld, \"pruned\": %lld, \"nontrivial\": %lld, \"transitions\": %lld, \"validated\": %lld, \"states\": %lld, \"capped\": %d, \"wall\": %.2f,\n",
            ex, pr, nt, tr, va, st, cap, Now() - t0);
    fprintf(f, "\"scenarios\": {");
    bool first = true;
    for (auto& s : todo) {
      Tot& t = tot[s.name];
      fprintf(f, "%s\n \"%s\": {\"executions\": %lld, \"pruned\": %lld, \"nontrivial\": %lld, \"transitions\": %lld, \"validated\": %lld, \"states\": %zu, \"complete\": %s, \"bounds\": \"%s\"}",
              first ? "" : ",", s.name.c_str(), t.ex, t.pr, t.nt, t.tr, t.va, t.st.size(),
              (t.cap || over) ? "false" : "true", jesc(s.bounds).c_str());
      first = false;
    }
    fprintf(f, "},\n\"counters\": {");
    first = true;
    for (auto& kv : counters) { fprintf(f, "%s\"%s\": %lld", first ? "" : ", ", jesc(kv.first).c_str(), kv.second); first = false; }
    fprintf(f, "},\n\"samples\": [");
    first = true;
    for (auto& s : samples) { fprintf(f, "%s\"%s\"", first ? "" : ",\n ", s.c_str()); first = false; }
    fprintf(f, "],\n\"known\": {");
    first = true;
    for (auto& kv : known_hits) {
      fprintf(f, "%s\"%s\": [%lld, \"%s\"]", first ? "" : ", ", jesc(kv.first).c_str(), kv.second, jesc(known_msg[kv.first]).c_str());
      first = false;
    }
    fprintf(f, "},\n\"violations\": [");
    first = true;
    for (auto& r : conf) {
      fprintf(f, "%s{\"scenario\": \"%s\", \"key\": \"%s\", \"msg\": \"%s\", \"desc\": \"%s\", \"choices\": \"%s\"}", first ? "" : ",\n ",
              r.scenario.c_str(), jesc(r.key).c_str(), r.msg.c_str(), r.desc.c_str(), join(r.choices).c_str());
      first = false;
    }
    fprintf(f, "]}\n");
    fclose(f);
  }
  dup2(saved_err, 2);
  for (auto& r : conf)
    say("violated: " + r.scenario + " [" + r.key + "] " + r.msg + " case: " + r.desc);
  if (!conf.empty()) return 1;
  return internal_error ? 3 : 0;
}

}  // namespace mc
