// mc.hpp - a small stateless model checker for sequential C++ code.
//
// A *scenario* is a function that drives the real implementation and asks the
// explorer for every nondeterministic decision through mc::choose(n).  The
// explorer runs the scenario once for EVERY sequence of choices (depth-first,
// VeriSoft/CHESS style: re-execution from the start, no state saving), so the
// choice tree of a scenario is enumerated completely within the bounds the
// scenario itself states.  Work is split over forked worker processes; a crash
// (sanitizer report, abort, signal) or a hang of the implementation is
// attributed to the exact choice sequence that was running, recorded, and the
// exploration is resumed after it.  Every violation is replayed in a fresh
// process before it is reported.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>


namespace mc {

// ---------------------------------------------------------------- basics ---
struct ExitCalled { int code; };
struct Violation { std::string sig, msg; };
struct SkipShard {};
struct HarnessError { std::string msg; };

constexpr int kMaxDepth = 4000;
constexpr int kMaxScen = 64;

struct Slot {                       // one per worker, in shared memory
  std::atomic<uint64_t> beat;
  std::atomic<int> depth;           // choices taken so far in this execution
  uint64_t prefix_before;           // shard counter before this execution
  int fresh_from;
  uint16_t choice[kMaxDepth], arity[kMaxDepth];
  int start_n;                      // the stack this execution began with
  uint16_t start_ch[kMaxDepth], start_ar[kMaxDepth];
  uint64_t execs[kMaxScen], trans[kMaxScen], maxdepth[kMaxScen];
  std::atomic<int> done;            // 1 finished, 2 deadline, 3 too many violations, 5 goes on in a new process (memory)
};
struct Shared {
  std::atomic<uint64_t> nstates[kMaxScen];
  std::atomic<uint64_t> table_full;
};

struct Scenario { std::string name, bounds; std::function<void()> fn; };

struct Ctx {
  std::vector<Scenario> scen;
  bool thorough = false, replaying = false, tracing = false;
  int jobs = 8, worker = 0, cur = 0;
  long seed = 1;
  Shared* sh = nullptr;
  Slot* slots = nullptr;
  Slot* slot = nullptr;
  std::atomic<uint64_t>* table = nullptr;
  uint64_t tmask = 0;
  std::vector<uint16_t> st_choice, st_arity;   // the DFS stack
  size_t pos = 0;
  bool sharding = false;
  uint64_t prefix = 0;              // shard counter
  bool decided = false;             // owner of this execution decided
  bool owned = true;
  double prod = 1;
  size_t fresh = 0;                 // first stack index that changed
  std::string trace;
  std::map<std::string, uint64_t> outcomes;
  uint64_t trans_here = 0;              // of the running execution; counted only by its owner
  std::vector<std::string> outcomes_here;
  std::string tmpdir;
  time_t deadline = 0; bool first_only = false;
};
inline Ctx& ctx() { static Ctx c; return c; }

inline bool thorough() { return ctx().thorough; }
inline int bound(int quick, int thor) { return ctx().thorough ? thor : quick; }
inline bool tracing() { return ctx().tracing; }
template <class F> inline void tr(F f) {
  if (ctx().tracing) { ctx().trace += f(); ctx().trace += "\n"; }
}
inline void beat() { ctx().slot->beat.fetch_add(1, std::memory_order_relaxed); }

inline void decide_owner() {
  Ctx& c = ctx();
  c.decided = true;
  if (!c.sharding) { c.owned = true; return; }
  // a prefix is counted once, when it is first reached
  if (c.fresh < c.pos || c.pos == 0) { ++c.prefix; c.owned = ((c.prefix - 1) % c.jobs) == (uint64_t)c.worker; }
  // otherwise: still below the same, owned prefix
}

inline int choose(int n) {
  Ctx& c = ctx();
  if (n <= 0) throw HarnessError{"choose(" + std::to_string(n) + ")"};
  beat();
  if (n == 1) return 0;
  if (n > 65535) throw HarnessError{"arity too large"};
  size_t i = c.pos;
  if (i >= kMaxDepth) throw HarnessError{"execution deeper than kMaxDepth"};
  if (i < c.st_choice.size()) {
    if (c.st_arity[i] == 0 && c.replaying) c.st_arity[i] = n;
    if (c.st_arity[i] != n) throw HarnessError{"divergence while replaying a prefix"};
    if (c.st_choice[i] >= n) throw HarnessError{"choice out of range in replay"};
  } else {
    if (c.replaying) throw HarnessError{"replay shorter than the execution"};
    c.st_choice.push_back(0);
    c.st_arity.push_back(n);
  }
  c.pos = i + 1;
  c.slot->choice[i] = c.st_choice[i];
  c.slot->arity[i] = n;
  c.slot->depth.store((int)c.pos, std::memory_order_release);
  int r = c.st_choice[i];
  if (c.sharding && !c.decided) {
    c.prod *= n;
    if (c.prod >= 64.0 * c.jobs) {
      decide_owner();
      if (!c.owned) throw SkipShard{};
    }
  }
  return r;
}
inline bool flip() { return choose(2) == 1; }
template <class V> inline const typename V::value_type& pick(const V& v) {
  return v[choose((int)v.size())];
}

// hashing -------------------------------------------------------------------
struct Hash {
  uint64_t h = 1469598103934665603ull;
  Hash& bytes(const void* p, size_t n) {
    const unsigned char* q = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) { h ^= q[i]; h *= 1099511628211ull; }
    return *this;
  }
  Hash& add(const std::string& s) { uint64_t n = s.size(); bytes(&n, 8); return bytes(s.data(), s.size()); }
  Hash& add(const char* s) { return add(std::string(s)); }
  Hash& add(double d) { if (d == 0) d = 0; return bytes(&d, 8); }
  Hash& add(long long v) { return bytes(&v, 8); }
  Hash& add(int v) { return add((long long)v); }
  Hash& add(size_t v) { return add((long long)v); }
  Hash& add(bool v) { return add((long long)v); }
  template <class T> Hash& add(const std::vector<T>& v) {
    add(v.size());
    for (const T& x : v) add(x);
    return *this;
  }
  uint64_t get() const { uint64_t x = h; x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }
};

// record a (canonical) state; distinct ones are counted exactly (64-bit hash)
inline bool state(uint64_t h) {
  Ctx& c = ctx();
  beat();
  if (!c.table) return false;
  h = (h ^ (0x9e3779b97f4a7c15ull * (c.cur + 1))) | 1;
  uint64_t i = h & c.tmask;
  for (int probe = 0; probe < 4096; ++probe, i = (i + 1) & c.tmask) {
    uint64_t v = c.table[i].load(std::memory_order_relaxed);
    if (v == h) return false;
    if (v == 0) {
      if (c.table[i].compare_exchange_strong(v, h)) {
        c.sh->nstates[c.cur].fetch_add(1, std::memory_order_relaxed);
        return true;
      }
      if (v == h) return false;
    }
  }
  c.sh->table_full.store(1);
  return false;
}
inline bool state(const Hash& h) { return state(h.get()); }
inline void step(int n = 1) { ctx().trans_here += n; beat(); }
inline void outcome(const std::string& s) {
  ctx().outcomes_here.push_back(s);
}

[[noreturn]] inline void fail(const std::string& sig, const std::string& msg) { throw Violation{sig, msg}; }
template <class F> inline void check(bool ok, const char* sig, F msg) { if (!ok) throw Violation{sig, msg()}; }
inline void check(bool ok, const char* sig) { if (!ok) throw Violation{sig, ""}; }

// ------------------------------------------------- observing the library ---
// Outcome of running a piece of the implementation.
struct Attempt {
  enum K { OK, REFUSED, EXIT0 } k = OK;
  std::string why;
  bool ok() const { return k == OK; }
  bool refused() const { return k == REFUSED; }
  std::string str() const { return k == OK ? "ok" : k == EXIT0 ? "exit(0)" : "refused(" + why + ")"; }
};
template <class F> inline Attempt attempt(F f) {
  Attempt a;
  try { f(); }
  catch (Violation&) { throw; }
  catch (SkipShard&) { throw; }
  catch (HarnessError&) { throw; }
  catch (ExitCalled& e) { a.k = e.code == 0 ? Attempt::EXIT0 : Attempt::REFUSED; a.why = "exit " + std::to_string(e.code); }
  catch (std::bad_alloc& e) { throw Violation{"bad_alloc", "the implementation ran out of memory"}; }
  catch (std::exception& e) { a.k = Attempt::REFUSED; a.why = e.what(); }
  return a;
}

// capture of what the implementation prints to std::cout / stdout
struct LimitedBuf : std::stringbuf {   // keeps some 32 MB: endless output ends as a hang, not in lost memory
  bool full() const { return pptr() - pbase() > (32 << 20); }
  int_type overflow(int_type c) override { return full() ? traits_type::not_eof(c) : std::stringbuf::overflow(c); }
  std::streamsize xsputn(const char* s, std::streamsize k) override { return full() ? k : std::stringbuf::xsputn(s, k); }
};
struct CaptureCout {
  LimitedBuf buf;
  std::streambuf* old;
  CaptureCout() { old = std::cout.rdbuf(&buf); }
  ~CaptureCout() { std::cout.rdbuf(old); }
  std::string str() const { return buf.str(); }
};

// ------------------------------------------------------------ exploration ---
struct Found {
  int scen; std::string sig, msg; std::vector<uint16_t> ch, ar;
  int worker; std::vector<uint16_t> start_ch, start_ar; uint64_t start_prefix;
  std::string trace; bool history = false; bool confirmed = false;
};

inline std::string hexs(const std::string& s) {
  static const char* d = "0123456789abcdef"; std::string r;
  for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
  return r.empty() ? "-" : r;
}
inline std::string unhex(const std::string& s) {
  std::string r; if (s == "-") return r;
  for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)std::stoi(s.substr(i, 2), nullptr, 16);
  return r;
}
template <class V> inline std::string joinv(const V& v) {
  std::string r; for (size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += std::to_string((long long)v[i]); }
  return r.empty() ? "-" : r;
}
inline std::vector<uint16_t> splitv(const std::string& s) {
  std::vector<uint16_t> r; if (s == "-") return r;
  std::istringstream is(s); std::string t; while (std::getline(is, t, ',')) r.push_back((uint16_t)std::stoi(t));
  return r;
}
inline std::string jesc(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c == '\t') r += "\\t";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

// advance the DFS stack to the next unexplored sequence; false when exhausted
inline bool advance(std::vector<uint16_t>& ch, std::vector<uint16_t>& ar, size_t& fresh) {
  while (!ch.empty()) {
    if (ch.back() + 1 < ar.back()) { ++ch.back(); fresh = ch.size() - 1; return true; }
    ch.pop_back(); ar.pop_back();
  }
  return false;
}

// private memory of a process in MB. The library never frees its matrices, so a worker hands over to a new
// process from time to time; one execution that takes GBs is a failure.
inline double mem_of(const std::string& who) {
  FILE* f = fopen(("/proc/" + who + "/statm").c_str(), "r"); if (!f) return 0;
  long size = 0, rss = 0, shared = 0; if (fscanf(f, "%ld %ld %ld", &size, &rss, &shared) != 3) rss = shared = 0; fclose(f);
  return (rss - shared) * (sysconf(_SC_PAGESIZE) / 1048576.0);
}
const double kRecycleMb = 1000, kRunawayMb = 2200;

inline void begin_exec() {
  Ctx& c = ctx();
  c.pos = 0; c.prod = 1; c.decided = false; c.trace.clear();
  c.trans_here = 0; c.outcomes_here.clear();
  c.slot->start_n = (int)c.st_choice.size();
  for (size_t i = 0; i < c.st_choice.size(); ++i) { c.slot->start_ch[i] = c.st_choice[i]; c.slot->start_ar[i] = c.st_arity[i]; }
  c.slot->depth.store(0); c.slot->prefix_before = c.prefix; c.slot->fresh_from = (int)c.fresh;
  if (!c.sharding) c.owned = true;
}

// runs one scenario in a worker; start* describe where to start (resume)
inline void worker_loop(std::vector<uint16_t> sc, std::vector<uint16_t> sa, uint64_t sp, bool owned0, size_t fresh0, bool have_start,
                        const std::vector<uint16_t>* stop_at, Violation* stop_v) {
  Ctx& c = ctx();
  Scenario& S = c.scen[c.cur];
  c.sharding = true;
  c.st_choice = sc; c.st_arity = sa; c.prefix = sp; c.owned = owned0; c.fresh = have_start ? fresh0 : 0;
  std::map<std::string, int> seen; int total = 0;
  FILE* vf = stop_at ? nullptr : fopen((c.tmpdir + "/viol." + std::to_string(c.cur) + "." + std::to_string(c.worker)).c_str(), "a");
  FILE* sf = nullptr;
  uint64_t local = 0, rounds = 0; int samples = 0;
  for (;;) {
    c.tracing = !stop_at && c.worker < 3 && samples < 2 && (local == 0 || local == 37 || local == 2011);
    begin_exec();
    bool viol = false; Violation V;
    bool skipped = false;
    try { S.fn(); }
    catch (SkipShard&) { skipped = true; }
    catch (Violation& v) { viol = true; V = v; }
    catch (ExitCalled& e) { viol = true; V = Violation{"unexpected-exit", "exit(" + std::to_string(e.code) + ") called"}; }
    catch (HarnessError&) { throw; }
    catch (std::exception& e) { viol = true; V = Violation{"unexpected-exception", e.what()}; }
    if (!skipped) {
      if (!c.decided) decide_owner();
      if (c.st_choice.size() > c.pos) throw HarnessError{"divergence: execution ended before its prefix"};
      if (c.owned) {
        c.slot->execs[c.cur]++; ++local;
        c.slot->trans[c.cur] += c.trans_here;
        for (auto& o : c.outcomes_here) if (c.outcomes.size() < 200 || c.outcomes.count(o)) ++c.outcomes[o];
        if (c.pos > c.slot->maxdepth[c.cur]) c.slot->maxdepth[c.cur] = c.pos;
        if (viol) {
          ++total;
          if (stop_at && c.st_choice == *stop_at) { *stop_v = V; return; }
          if (vf && seen[V.sig]++ < 2) {
            fprintf(vf, "%s %s %s %s %d %s %s %llu\n", hexs(V.sig).c_str(), hexs(V.msg).c_str(), joinv(c.st_choice).c_str(), joinv(c.st_arity).c_str(),
                    c.worker, joinv(sc).c_str(), joinv(sa).c_str(), (unsigned long long)sp);
            fflush(vf);
          }
        }
        if (c.tracing && !viol && !c.trace.empty()) {
          ++samples;
          if (!sf) sf = fopen((c.tmpdir + "/samp." + std::to_string(c.cur) + "." + std::to_string(c.worker)).c_str(), "a");
          fprintf(sf, "%s %s\n", joinv(c.st_choice).c_str(), hexs(c.trace).c_str()); fflush(sf);
        }
      }
    }
    beat();
    if (stop_at && c.st_choice == *stop_at) return;
    if (total > (c.first_only ? 0 : 400)) { c.slot->done.store(3); break; }
    if (c.deadline && (local & 15) == 0 && time(nullptr) > c.deadline) { c.slot->done.store(2); break; }
    if (!advance(c.st_choice, c.st_arity, c.fresh)) { c.slot->done.store(1); break; }
    if (!stop_at && (++rounds & 63) == 0 && mem_of("self") > kRecycleMb) { begin_exec(); c.slot->done.store(5); break; }
  }
  if (vf) fclose(vf);
  if (sf) fclose(sf);
  if (!stop_at) {
    FILE* of = fopen((c.tmpdir + "/out." + std::to_string(c.cur) + "." + std::to_string(c.worker)).c_str(), "a");
    for (auto& o : c.outcomes) fprintf(of, "%llu %s\n", (unsigned long long)o.second, hexs(o.first).c_str());
    fclose(of);
  }
}

inline void worker_setup(const std::string& errfile) {
  int nul = open("/dev/null", O_RDWR);
  dup2(nul, 0); dup2(nul, 1);
  int e = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  dup2(e, 2);
  static std::ofstream nullos("/dev/null");
  std::cerr.rdbuf(nullos.rdbuf());
  std::clog.rdbuf(nullos.rdbuf());
  prctl(PR_SET_PDEATHSIG, SIGKILL);
}
inline std::string slurp(const std::string& f, size_t lim = 20000) {
  std::ifstream i(f, std::ios::binary); std::string s; s.resize(lim);
  i.read(&s[0], lim); s.resize(i.gcount()); return s;
}
inline std::string crash_kind(const std::string& errfile, int status) {
  std::string t = slurp(errfile, 200000), best;
  std::istringstream is(t); std::string l;
  while (std::getline(is, l)) {
    if (l.find("runtime error:") != std::string::npos && best.empty()) best = "UBSan: " + l.substr(l.find("runtime error:") + 15);
    if (l.compare(0, 8, "SUMMARY:") == 0 && best.empty()) {
      // drop addresses and absolute paths
      std::istringstream w(l); std::string a, b, d; w >> a >> b >> d; best = b + " " + d;
    }
    if (l.find("Assertion '") != std::string::npos && best.empty()) best = "assertion failure in the standard library";
    if (l.find("terminate called") != std::string::npos && best.empty()) best = "std::terminate";
  }
  if (best.empty()) best = WIFSIGNALED(status) ? "signal " + std::to_string(WTERMSIG(status)) : "process ended with status " + std::to_string(WEXITSTATUS(status));
  std::string r; bool hex = false;
  for (size_t i = 0; i < best.size(); ++i) {
    if (i + 1 < best.size() && best[i] == '0' && best[i + 1] == 'x') { r += "ADDR"; hex = true; ++i; continue; }
    if (hex && isxdigit((unsigned char)best[i])) continue;
    hex = false; r += best[i];
  }
  return r.substr(0, 120);
}
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
// processor time a child has used: the machine may be busy with other work, so a hang is judged by it
inline double cpu_of(pid_t p) {
  std::ifstream f("/proc/" + std::to_string(p) + "/stat"); std::string l; std::getline(f, l); size_t k = l.rfind(')'); if (k == std::string::npos) return 0;
  std::istringstream is(l.substr(k + 1)); std::string w; double u = 0, v = 0; for (int i = 0; i < 11; ++i) is >> w; is >> u >> v; return (u + v) / (double)sysconf(_SC_CLK_TCK);
}
const double kWallPerCpu = 15;      // one that waits for ever uses no processor time

// Replays one choice sequence in a fresh process. Returns true if it fails.
struct ReplayResult { bool failed = false, error = false; std::string sig, msg, trace; };
inline ReplayResult replay_once(const Found& f, bool history, double limit) {
  Ctx& c = ctx(); ReplayResult R;
  static int n = 0; std::string base = c.tmpdir + "/replay." + std::to_string(getpid()) + "." + std::to_string(++n);
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    worker_setup(base + ".err");
    c.cur = f.scen; c.slot = &c.slots[c.jobs]; c.table = nullptr; c.outcomes.clear();
    FILE* o = fopen((base + ".res").c_str(), "w");
    try {
      Violation V; bool viol = false;
      if (history) {
        c.worker = f.worker; c.slot->execs[c.cur] = 0;
        Violation sv; sv.sig = "";
        worker_loop(f.start_ch, f.start_ar, f.start_prefix, true, f.start_ch.empty() ? 0 : f.start_ch.size() - 1, !f.start_ch.empty(), &f.ch, &sv);
        if (!sv.sig.empty()) { viol = true; V = sv; }
      } else {
        c.replaying = true; c.sharding = false; c.tracing = true; c.prefix = 0;
        c.st_choice = f.ch; c.st_arity = f.ar; if (c.st_arity.size() != c.st_choice.size()) c.st_arity.assign(c.st_choice.size(), 0);
        // choice points after the recorded ones (a crash or a hang records the path up to it) take 0
        c.replaying = f.ar.empty();
        begin_exec();
        try { c.scen[c.cur].fn(); }
        catch (Violation& v) { viol = true; V = v; }
        catch (ExitCalled& e) { viol = true; V = Violation{"unexpected-exit", "exit(" + std::to_string(e.code) + ") called"}; }
        catch (HarnessError&) { throw; }
        catch (std::exception& e) { viol = true; V = Violation{"unexpected-exception", e.what()}; }
      }
      fprintf(o, "%d %s %s %s\n", viol ? 1 : 0, hexs(V.sig).c_str(), hexs(V.msg).c_str(), hexs(c.trace).c_str());
    } catch (HarnessError& e) { fprintf(o, "2 %s - -\n", hexs(e.msg).c_str()); }
    fclose(o);
    _exit(0);
  }
  double t0 = now(); int st = 0; bool killed = false, grown = false;
  for (;;) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) break;
    if (mem_of(std::to_string(p)) > kRunawayMb) { kill(p, SIGKILL); waitpid(p, &st, 0); killed = grown = true; break; }
    if (now() - t0 > limit && (cpu_of(p) > limit || now() - t0 > kWallPerCpu * limit)) { kill(p, SIGKILL); waitpid(p, &st, 0); killed = true; break; }
    usleep(2000);
  }
  std::string res = slurp(base + ".res", 4000000);
  if (grown) { R.failed = !history; R.sig = "memory"; R.msg = "takes more than " + std::to_string((int)kRunawayMb) + " MB"; }
  else if (killed) { R.failed = true; R.sig = "hang"; R.msg = "no end after " + std::to_string((int)limit) + " s of processor time"; }
  else if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || res.empty()) {
    R.failed = true; std::string k = crash_kind(base + ".err", st); R.sig = "crash: " + k; R.msg = slurp(base + ".err", 3000);
  } else {
    std::istringstream is(res); int k; std::string a, b, d; is >> k >> a >> b >> d;
    R.failed = k == 1; R.error = k == 2; R.sig = unhex(a); R.msg = unhex(b); R.trace = unhex(d);
  }
  unlink((base + ".err").c_str()); unlink((base + ".res").c_str());
  return R;
}

inline void write_result(const std::string& out, const std::vector<Found>& F, const std::vector<int>& status, double wall, bool error, const std::string& errmsg);

inline std::vector<Scenario>& registry() { return ctx().scen; }
inline void scenario(const std::string& name, const std::string& bounds, std::function<void()> fn) { ctx().scen.push_back({name, bounds, fn}); }

inline int run_main(int argc, char** argv, void (*setup)()) {
  Ctx& c = ctx();
  std::string out, replay, only; double limit = 0; double hang = 6;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return std::string(argv[++i]); };
    if (a == "--thorough") c.thorough = true;
    else if (a == "--out") out = val();
    else if (a == "--jobs") c.jobs = std::stoi(val());
    else if (a == "--seed") c.seed = std::stol(val());
    else if (a == "--only") only = val();
    else if (a == "--deadline") limit = std::stod(val());
    else if (a == "--tmp") c.tmpdir = val();
    else if (a == "--hang") hang = std::stod(val());
    else if (a == "--first") c.first_only = true;
    else if (a == "--replay") { replay = val(); }
  }
  if (c.tmpdir.empty()) { char b[] = "/tmp/mcXXXXXX"; c.tmpdir = mkdtemp(b); }
  setup();
  if (!only.empty()) { std::vector<Scenario> k; for (auto& s : c.scen) if (s.name.find(only) != std::string::npos) k.push_back(s); c.scen = k; }
  if (c.scen.size() >= kMaxScen) { fprintf(stderr, "too many scenarios\n"); return 3; }
  auto shm = [](size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) abort(); return p; };
  c.sh = new (shm(sizeof(Shared))) Shared();
  c.slots = (Slot*)shm(sizeof(Slot) * (c.jobs + 1));
  c.slot = &c.slots[c.jobs];
  uint64_t tsize = c.thorough ? (1ull << 26) : (1ull << 23);
  c.tmask = tsize - 1;
  c.table = (std::atomic<uint64_t>*)shm(tsize * 8);

  if (!replay.empty()) {           // "scenario-name choices" file
    std::ifstream f(replay); std::string name, ch; std::getline(f, name); std::getline(f, ch);
    Found F; F.scen = -1;
    for (size_t i = 0; i < c.scen.size(); ++i) if (c.scen[i].name == name) F.scen = (int)i;
    if (F.scen < 0) { fprintf(stderr, "unknown scenario %s\n", name.c_str()); return 3; }
    F.ch = splitv(ch); F.ar.clear();
    ReplayResult r = replay_once(F, false, 120);
    printf("%s\n%s\n%s: %s\n", name.c_str(), r.trace.c_str(), r.failed ? "VIOLATED" : r.error ? "ERROR" : "held", (r.sig + " " + r.msg).c_str());
    return r.failed ? 1 : r.error ? 3 : 0;
  }
  double t0 = now();
  if (limit > 0) c.deadline = time(nullptr) + (time_t)limit;
  std::vector<Found> found; std::vector<int> status(c.scen.size(), 1);
  bool error = false; std::string errmsg;
  int hangs = 0;
  for (size_t s = 0; s < c.scen.size() && !error; ++s) {
    c.cur = (int)s;
    if (hangs >= 3) { status[s] = 3; continue; }
    if (c.first_only && s > 0) {       // --first: stop after the first scenario that fails
      bool any = !found.empty();
      for (int i = 0; i < c.jobs; ++i) any = any || std::ifstream(c.tmpdir + "/viol." + std::to_string(s - 1) + "." + std::to_string(i)).peek() != EOF;
      if (any) break;
    }
    struct W { pid_t pid = -1; uint64_t beat = 0; double t = 0, cpu = 0, looked = 0; int again = 0; int crashes = 0; bool fin = false; std::vector<uint16_t> sc, sa; uint64_t sp = 0; };
    std::vector<W> w(c.jobs);
    auto launch = [&](int i, bool resume, bool owned, size_t fresh) {
      Slot& sl = c.slots[i]; sl.done.store(0);
      fflush(stdout); fflush(stderr);
      pid_t p = fork();
      if (p == 0) {
        c.worker = i; c.slot = &sl; c.outcomes.clear();
        worker_setup(c.tmpdir + "/err." + std::to_string(i));
        try { worker_loop(w[i].sc, w[i].sa, w[i].sp, owned, fresh, resume, nullptr, nullptr); }
        catch (HarnessError& e) { FILE* f = fopen((c.tmpdir + "/harness_error").c_str(), "w"); fprintf(f, "%s: %s", c.scen[s].name.c_str(), e.msg.c_str()); fclose(f); _exit(77); }
        _exit(0);
      }
      w[i].pid = p; w[i].beat = sl.beat.load(); w[i].t = now(); w[i].cpu = 0;
    };
    for (int i = 0; i < c.jobs; ++i) { w[i].sc.clear(); w[i].sa.clear(); w[i].sp = 0; launch(i, false, true, 0); }
    int live = c.jobs;
    while (live > 0) {
      for (int i = 0; i < c.jobs; ++i) {
        if (w[i].fin) continue;
        Slot& sl = c.slots[i]; int st = 0; bool hung = false, grown = false;
        pid_t r = waitpid(w[i].pid, &st, WNOHANG);
        if (r != w[i].pid && now() - w[i].looked > .2) { w[i].looked = now(); if (mem_of(std::to_string(w[i].pid)) > kRunawayMb) { kill(w[i].pid, SIGKILL); waitpid(w[i].pid, &st, 0); r = w[i].pid; grown = true; } }
        if (r != w[i].pid) {
          uint64_t b = sl.beat.load();
          if (b != w[i].beat) { w[i].beat = b; w[i].t = now(); w[i].cpu = -1; continue; }
          if (now() - w[i].t < hang / 2) continue;
          if (w[i].cpu < 0) w[i].cpu = cpu_of(w[i].pid);      // counted from the first look: the limit is generous
          if (now() - w[i].t < hang || (cpu_of(w[i].pid) - w[i].cpu < hang && now() - w[i].t < kWallPerCpu * hang)) continue;
          kill(w[i].pid, SIGKILL); waitpid(w[i].pid, &st, 0); hung = true;
        }
        auto from_start = [&] {       // the same execution in a new process
          w[i].sc.assign(sl.start_ch, sl.start_ch + sl.start_n); w[i].sa.assign(sl.start_ar, sl.start_ar + sl.start_n); w[i].sp = sl.prefix_before;
          launch(i, sl.start_n > 0, true, sl.start_n > 0 ? (size_t)sl.fresh_from : 0);
        };
        if (!hung && !grown && WIFEXITED(st) && WEXITSTATUS(st) == 0 && sl.done.load() == 5) { from_start(); continue; }
        if (!hung && !grown && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && w[i].again < 20) { ++w[i].again; from_start(); continue; }   // ended from outside
        if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0) { w[i].fin = true; --live; if (sl.done.load() != 1) status[s] = sl.done.load() ? sl.done.load() : 4; continue; }
        if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 77) { error = true; errmsg = slurp(c.tmpdir + "/harness_error"); w[i].fin = true; --live; continue; }
        // crash or hang: attribute it to the running choice sequence
        int d = sl.depth.load();
        Found f; f.scen = (int)s; f.ch.assign(sl.choice, sl.choice + d); f.ar.assign(sl.arity, sl.arity + d);
        f.worker = i; f.start_ch = w[i].sc; f.start_ar = w[i].sa; f.start_prefix = w[i].sp;
        bool count = true;
        if (hung || grown) {
          ReplayResult rr = replay_once(f, false, 4 * hang);
          if (rr.failed) { f.sig = rr.sig; f.msg = rr.msg; f.trace = rr.trace; f.confirmed = true; if (f.sig == "hang" || f.sig == "memory") ++hangs; } else count = false;
        } else { f.sig = "crash: " + crash_kind(c.tmpdir + "/err." + std::to_string(i), st); f.msg = slurp(c.tmpdir + "/err." + std::to_string(i), 3000); }
        if (count) { found.push_back(f); ++w[i].crashes; sl.execs[s]++; }
        if (hangs >= 3) {                           // enough of them: each one costs seconds
          for (int k = 0; k < c.jobs; ++k) if (!w[k].fin) { if (k != i) { kill(w[k].pid, SIGKILL); waitpid(w[k].pid, nullptr, 0); } w[k].fin = true; --live; }
          status[s] = 3; break;
        }
        if (w[i].crashes >= 4) { w[i].fin = true; --live; status[s] = 3; continue; }
        // resume after it
        std::vector<uint16_t> ch = f.ch, ar = f.ar; size_t fresh = 0;
        // shard counter: recompute whether the crashed execution had passed its shard point
        double prod = 1; int sp = -1; for (int k = 0; k < d; ++k) { prod *= ar[k]; if (prod >= 64.0 * c.jobs) { sp = k; break; } }
        uint64_t pre = sl.prefix_before;
        if (sp < 0) pre += 1;                       // ended before the shard point: counted at its end
        else if (sl.fresh_from <= sp) pre += 1;     // its prefix was new
        if (!count && grown && w[i].again < 20) { ++w[i].again; from_start(); continue; }   // it had grown over many executions
        if (!advance(ch, ar, fresh)) { w[i].fin = true; --live; continue; }
        w[i].sc = ch; w[i].sa = ar; w[i].sp = pre;
        launch(i, true, true, fresh);
      }
      usleep(3000);
    }
  }
  // violations recorded by workers
  for (size_t s = 0; s < c.scen.size(); ++s)
    for (int i = 0; i < c.jobs; ++i) {
      std::ifstream vf(c.tmpdir + "/viol." + std::to_string(s) + "." + std::to_string(i)); std::string line;
      while (std::getline(vf, line)) {
        std::istringstream is(line); std::string a, b, ch, ar, sc, sa; Found f; is >> a >> b >> ch >> ar >> f.worker >> sc >> sa >> f.start_prefix;
        f.scen = (int)s; f.sig = unhex(a); f.msg = unhex(b); f.ch = splitv(ch); f.ar = splitv(ar); f.start_ch = splitv(sc); f.start_ar = splitv(sa);
        found.push_back(f);
      }
    }
  // keep the smallest few per (scenario, signature), then replay before report
  std::stable_sort(found.begin(), found.end(), [](const Found& a, const Found& b) {
    if (a.scen != b.scen) return a.scen < b.scen;
    if (a.sig != b.sig) return a.sig < b.sig;
    if (a.ch.size() != b.ch.size()) return a.ch.size() < b.ch.size();
    return a.ch < b.ch; });
  std::map<std::pair<int, std::string>, int> per; std::vector<Found> rep; int confirmed = 0;
  for (auto& f : found) {
    int& n = per[{f.scen, f.sig}];
    if (n >= 3 || confirmed >= 40) continue;
    ++n;
    if (f.confirmed) { ++confirmed; rep.push_back(f); continue; }
    int bad = 0; ReplayResult last; bool herr = false;
    for (int k = 0; k < 2; ++k) { ReplayResult r = replay_once(f, false, 60); if (r.failed) { ++bad; last = r; } if (r.error) herr = true; }
    if (bad < 2) { ReplayResult r = replay_once(f, false, 60); if (r.failed) { ++bad; last = r; } }
    if (bad >= 2) { f.confirmed = true; f.trace = last.trace; if (f.sig.compare(0, 5, "crash") == 0 || f.sig == "hang") { f.msg = last.msg; } }
    else if (!herr) {
      // it may need the history of the worker's process (state kept across executions)
      int hb = 0; for (int k = 0; k < 2; ++k) { ReplayResult r = replay_once(f, true, 200); if (r.failed) ++hb; }
      if (hb == 2) { f.confirmed = true; f.history = true; f.msg += " [needs the preceding executions in the same process]"; }
    }
    if (f.confirmed) ++confirmed;
    else fprintf(stderr, "UNCONFIRMED %s %s %s\n", c.scen[f.scen].name.c_str(), f.sig.c_str(), f.msg.substr(0, 300).c_str());
    rep.push_back(f);
  }
  write_result(out, rep, status, now() - t0, error, errmsg);
  if (error) { fprintf(stderr, "harness error: %s\n", errmsg.c_str()); return 3; }
  return rep.empty() ? 0 : 1;
}

inline void write_result(const std::string& out, const std::vector<Found>& F, const std::vector<int>& status, double wall, bool error, const std::string& errmsg) {
  Ctx& c = ctx();
  std::ostringstream o;
  o << "{\"wall\":" << wall << ",\"error\":" << (error ? jesc(errmsg) : "null") << ",\"table_full\":" << c.sh->table_full.load() << ",\"scenarios\":[";
  for (size_t s = 0; s < c.scen.size(); ++s) {
    uint64_t e = 0, t = 0, d = 0;
    for (int i = 0; i < c.jobs; ++i) { e += c.slots[i].execs[s]; t += c.slots[i].trans[s]; d = std::max(d, c.slots[i].maxdepth[s]); }
    std::map<std::string, uint64_t> oc;
    std::vector<std::string> samples;
    for (int i = 0; i < c.jobs; ++i) {
      std::ifstream f(c.tmpdir + "/out." + std::to_string(s) + "." + std::to_string(i)); std::string l;
      while (std::getline(f, l)) { std::istringstream is(l); uint64_t n; std::string k; is >> n >> k; oc[unhex(k)] += n; }
      std::ifstream g(c.tmpdir + "/samp." + std::to_string(s) + "." + std::to_string(i));
      while (std::getline(g, l)) { std::istringstream is(l); std::string ch, tr; is >> ch >> tr; if (samples.size() < 4) samples.push_back("choices " + ch + "\n" + unhex(tr).substr(0, 1500)); }
    }
    o << (s ? "," : "") << "{\"name\":" << jesc(c.scen[s].name) << ",\"bounds\":" << jesc(c.scen[s].bounds) << ",\"executions\":" << e << ",\"transitions\":" << t
      << ",\"states\":" << c.sh->nstates[s].load() << ",\"max_choices\":" << d << ",\"complete\":" << (status[s] == 1 ? "true" : "false") << ",\"outcomes\":{";
    bool first = true; for (auto& k : oc) { o << (first ? "" : ",") << jesc(k.first) << ":" << k.second; first = false; }
    o << "},\"samples\":[";
    for (size_t k = 0; k < samples.size(); ++k) o << (k ? "," : "") << jesc(samples[k]);
    o << "]}";
  }
  o << "],\"violations\":[";
  for (size_t k = 0; k < F.size(); ++k) {
    const Found& f = F[k];
    o << (k ? "," : "") << "{\"scenario\":" << jesc(c.scen[f.scen].name) << ",\"sig\":" << jesc(f.sig) << ",\"msg\":" << jesc(f.msg.substr(0, 4000)) << ",\"choices\":" << jesc(joinv(f.ch))
      << ",\"trace\":" << jesc(f.trace.substr(0, 20000)) << ",\"confirmed\":" << (f.confirmed ? "true" : "false") << ",\"history\":" << (f.history ? "true" : "false") << "}";
  }
  o << "]}\n";
  if (out.empty()) std::cout << o.str();
  else { std::ofstream f(out); f << o.str(); }
}

}  // namespace mc

#ifndef VERIF_NO_EXIT_DEF
[[noreturn]] void verif_exit(int code) { throw mc::ExitCalled{code}; }
#endif

#define MC_MAIN(setup) int main(int argc, char** argv) { return mc::run_main(argc, argv, setup); }
#endif
