#include "mc.hpp"
#include <atomic>
#include <cstdarg>
#include <cstdlib>
#include <errno.h>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <cxxabi.h>

extern "C" void __sanitizer_set_death_callback(void (*)(void));

namespace mc {
namespace {

constexpr int kMaxPath = 8192, kMsg = 16384, kSamples = 3, kSampleLen = 1500;
constexpr size_t kTable = size_t(1) << 22;

struct Shared {                                  // one per worker
  std::atomic<uint64_t> execs, steps, nontriv, pruned, leaks_rechecked, beat;
  std::atomic<int> pathlen, space, done, violated, capped, phase, maxlen;
  uint16_t path[kMaxPath];
  char sig[512], msg[kMsg];
  int nsamples;
  char samples[kSamples][kSampleLen];
  uint64_t space_execs[256], space_steps[256], known_hits[64];
  uint8_t space_done[256];
};

struct Global { std::atomic<uint64_t> states, table_full; std::atomic<int> stop; std::atomic<uint64_t> table[kTable]; };

struct PruneTag {};
struct ForeignTag {};

std::vector<Space>& spaces() { static std::vector<Space> s; return s; }

Shared* W; Global* G;
int worker_id, worker_count = 1;
std::vector<uint16_t> path, arity;
int pos, split_depth;
uint64_t steps_here;
bool replaying_fixed, own_checked, is_noting, is_thorough, nontriv_flag;
std::vector<std::string> notes;
double deadline;
std::vector<std::string> known;      // known-finding signatures for this property

double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

[[noreturn]] void infra(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt);
  fprintf(stderr, "MC-INFRASTRUCTURE-ERROR: "); vfprintf(stderr, fmt, ap); fputc('\n', stderr);
  va_end(ap); fflush(stderr); _exit(3);
}

uint64_t prefix_hash() {
  uint64_t h = 88172645463325252ull;
  for (int i = 0; i < pos && i < split_depth; ++i) h = mix(h, path[i] + 1);
  return h;
}
bool own() { return replaying_fixed || worker_count == 1 || (prefix_hash() % worker_count) == (uint64_t) worker_id; }

std::string join_path() { std::ostringstream o; for (int i = 0; i < pos; ++i) o << (i ? "," : "") << path[i]; return o.str(); }

}

Reg::Reg(const char* n, const char* b, void (*f)(), int s, bool l) { spaces().push_back({n, b, f, s, l}); }

int choose(int n) {
  if (n <= 0) infra("choose(%d)", n);
  if (pos == split_depth && !own_checked) { own_checked = true; if (!own()) throw ForeignTag {}; }
  if (pos >= kMaxPath) infra("path too long");
  if (pos < (int) path.size()) {
    if (pos < (int) arity.size()) {
      if (arity[pos] != n) infra("nondeterminism: choice %d had arity %d, now %d", pos, arity[pos], n);
    } else arity.push_back(n);
    if (path[pos] >= n) infra("replay out of range: choice %d is %d of %d", pos, path[pos], n);
  } else {
    if (replaying_fixed) infra("replay ran past the recorded choices");
    path.push_back(0); arity.push_back(n);
  }
  if (n > 65535) infra("arity too large");
  int v = path[pos];
  W->path[pos] = v; ++pos; W->pathlen.store(pos, std::memory_order_relaxed);
  return v;
}
bool flip() { return choose(2) == 1; }
bool thorough() { return is_thorough; }
bool noting() { return is_noting; }
void note_str(std::string const& s) { if (is_noting) { NoFault nf; notes.push_back(s); } }
void step(uint64_t n) { steps_here += n; }
void nontrivial() { nontriv_flag = true; }
void hold(void* p) { asm volatile("" : : "r"(p) : "memory"); }
void prune() { throw PruneTag {}; }
// Remembered as well as thrown: code under test may swallow the exception.
static bool pend; static std::string pend_sig, pend_msg;
void fail(std::string sig, std::string msg) { NoFault nf; if (!pend) { pend = true; pend_sig = sig; pend_msg = msg; } throw Violation {std::move(sig), std::move(msg)}; }

void state(uint64_t h) {
  if (!h) h = 1;
  size_t i = mix(h, 7) & (kTable - 1);
  for (int k = 0; k < 64; ++k, i = (i + 1) & (kTable - 1)) {
    uint64_t cur = G->table[i].load(std::memory_order_relaxed);
    if (cur == h) return;
    if (!cur) {
      uint64_t exp = 0;
      if (G->table[i].compare_exchange_strong(exp, h)) { G->states.fetch_add(1, std::memory_order_relaxed); return; }
      if (exp == h) return;
    }
  }
  G->table_full.fetch_add(1, std::memory_order_relaxed);
}

std::string show(std::string const& s, size_t max) {
  std::string o = "\""; char b[8];
  for (size_t i = 0; i < s.size() && i < max; ++i) {
    unsigned char c = s[i];
    if (c >= 32 && c < 127 && c != '"' && c != '\\') o += c; else { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
  }
  if (s.size() > max) o += "...(" + std::to_string(s.size()) + " bytes)";
  return o + "\"";
}

namespace {

// Runs one execution. Returns: 0 ok, 1 violation (sig/msg filled), 2 pruned, 3 foreign.
int run_once(Space const& sp, std::string& sig, std::string& msg) {
  pos = 0; steps_here = 0; own_checked = false; nontriv_flag = false; alloc_fail_at = -1;
  W->pathlen.store(0, std::memory_order_relaxed); pend = false;
  if (is_noting) notes.clear();
  int rc = 0;
  try { sp.body(); alloc_fail_at = -1; }
  catch (PruneTag) { alloc_fail_at = -1; rc = 2; }
  catch (ForeignTag) { alloc_fail_at = -1; return 3; }
  catch (Violation& v) { alloc_fail_at = -1; sig = v.sig; msg = v.msg; rc = 1; }
  catch (std::exception& e) {
    alloc_fail_at = -1;
    int st; std::unique_ptr<char, void (*)(void*)> nm(abi::__cxa_demangle(typeid(e).name(), 0, 0, &st), free);
    sig = std::string("unexpected exception ") + (nm ? nm.get() : typeid(e).name()); msg = sig + ": " + e.what(); rc = 1;
  } catch (...) { alloc_fail_at = -1; sig = msg = "unexpected unknown exception"; rc = 1; }
  if (pend && rc != 2) { sig = pend_sig; msg = pend_msg; rc = 1; }
  // Executions that ended above the split depth belong to whoever owns their complete path.
  if (!own_checked && !own()) return 3;
  return rc;
}

void load_known(const char* file, std::string const& prop) {
  std::ifstream in(file); std::string line;
  std::string pre = "finding: property=" + prop + " sig=";
  while (std::getline(in, line)) if (line.compare(0, pre.size(), pre) == 0) {
    auto s = line.substr(pre.size()); auto bar = s.find(" | "); known.push_back(bar == std::string::npos ? s : s.substr(0, bar));
  }
}

bool report(std::string const& sig, std::string const& msg) {   // true if it is a known finding
  for (size_t i = 0; i < known.size() && i < 64; ++i) if (known[i] == sig) { ++W->known_hits[i]; return true; }
  snprintf(W->sig, sizeof W->sig, "%s", sig.c_str());
  snprintf(W->msg, sizeof W->msg, "%s", msg.c_str());
  return false;
}

void explore_space(int idx) {
  Space const& sp = spaces()[idx];
  W->space.store(idx);
  path.clear(); arity.clear(); split_depth = sp.split;
  path.reserve(kMaxPath); arity.reserve(kMaxPath);
  uint64_t n = 0, st0 = W->steps.load();
  std::string sig, msg; sig.reserve(256); msg.reserve(1024);
  for (;;) {
    bool want_sample = W->nsamples < kSamples && (n == 3 || n == 200 || n == 5000) ;
    is_noting = want_sample;
    size_t before = sp.leak_check ? live_bytes() : 0;
    int rc = run_once(sp, sig, msg);
    if (rc == 0 && sp.leak_check && live_bytes() != before && !is_noting) {
      // Possibly one-time initialisation: the same execution must leak again before it is believed.
      W->leaks_rechecked.fetch_add(1, std::memory_order_relaxed);
      long long grew[2];
      for (auto& g : grew) { size_t b = live_bytes(); rc = run_once(sp, sig, msg); g = (long long) live_bytes() - (long long) b; if (rc) break; }
      if (rc == 0 && grew[0] && grew[1]) { sig = "memory leak"; msg = "memory leak: live heap bytes changed by " + std::to_string(grew[1]) + " over the execution"; rc = 1; }
    }
    if (rc == 0) {
      ++n; W->execs.fetch_add(1, std::memory_order_relaxed); W->steps.fetch_add(steps_here, std::memory_order_relaxed);
      if (nontriv_flag) W->nontriv.fetch_add(1, std::memory_order_relaxed);
      if (pos > W->maxlen.load(std::memory_order_relaxed)) W->maxlen.store(pos);
      if (want_sample) {
        std::string s = sp.name + " [" + join_path() + "]";
        for (auto& l : notes) s += " ; " + l;
        snprintf(W->samples[W->nsamples++], kSampleLen, "%s", s.c_str());
      }
    } else if (rc == 2) W->pruned.fetch_add(1, std::memory_order_relaxed);
    else if (rc == 1) {
      if (!report(sig, msg)) { W->violated.store(1); G->stop.store(1); return; }
    }
    W->beat.fetch_add(1, std::memory_order_relaxed);
    if ((W->beat.load(std::memory_order_relaxed) & 63) == 0) {
      if (G->stop.load(std::memory_order_relaxed)) return;
      if (now() > deadline) { W->capped.store(1); return; }
    }
    // Backtrack.
    if ((int) path.size() > pos) infra("body consumed fewer choices than recorded (nondeterminism)");
    while (!path.empty() && path.back() + 1 >= arity.back()) { path.pop_back(); arity.pop_back(); }
    if (path.empty()) break;
    ++path.back();
  }
  W->space_execs[idx] = n; W->space_steps[idx] = W->steps.load() - st0; W->space_done[idx] = 1;
}

std::string slurp(std::string const& f) { std::ifstream in(f); std::stringstream s; s << in.rdbuf(); return s.str(); }
std::string json_escape(std::string const& s) {
  std::string o; char b[8];
  for (unsigned char c : s) {
    if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\"; else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c;
  }
  return o;
}

// Re-run one recorded execution alone in a fresh process. Returns wait status; output in `out`, -1 on hang.
int replay_child(int space, std::vector<uint16_t> const& p, std::string const& outf, double limit, bool& hung) {
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (!pid) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int fd = open(outf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 1); dup2(fd, 2); close(fd);
    replaying_fixed = true; is_noting = false; split_depth = 1 << 30;
    // First pass silent (so that crashes happen exactly as in the exploration), with leak check like the exploration.
    path = p; arity.clear(); path.reserve(kMaxPath); arity.reserve(kMaxPath);
    std::string sig, msg;
    int rc = run_once(spaces()[space], sig, msg);
    if (rc == 0 && spaces()[space].leak_check) {
      long long g[2]; for (auto& x : g) { size_t b = live_bytes(); rc = run_once(spaces()[space], sig, msg); x = (long long) live_bytes() - (long long) b; if (rc) break; }
      if (!rc && g[0] && g[1]) { rc = 1; msg = "memory leak of " + std::to_string(g[1]) + " bytes"; }
    }
    if (rc == 1) { printf("FAILED: %s\n", msg.c_str()); fflush(stdout); _exit(42); }
    if (rc == 2) _exit(43);
    fflush(stdout); _exit(0);
  }
  double end = now() + limit; int st = 0; hung = false;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) return st;
    if (now() > end) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; return st; }
    usleep(5000);
  }
}

// Notes of an execution, best effort (printed as the run proceeds so that a crash keeps them).
std::string describe(int space, std::vector<uint16_t> const& p, std::string const& outf) {
  fflush(stdout);
  pid_t pid = fork();
  if (!pid) {
    int fd = open(outf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 1); close(fd); int n = open("/dev/null", O_WRONLY); dup2(n, 2);
    replaying_fixed = true; is_noting = true; split_depth = 1 << 30; path = p; arity.clear(); path.reserve(kMaxPath); arity.reserve(kMaxPath);
    alarm(60);
    struct Dump { static void go() { for (auto& l : notes) printf("  %s\n", l.c_str()); fflush(stdout); } };
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGALRM}) signal(s, [] (int) { Dump::go(); _exit(9); });
    __sanitizer_set_death_callback([] { Dump::go(); });
    std::string a, b; run_once(spaces()[space], a, b);
    Dump::go(); _exit(0);
  }
  int st; waitpid(pid, &st, 0);
  return slurp(outf);
}

}  // anon
}  // mc

extern "C" const char* __asan_default_options() { return "exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=8:quarantine_size_mb=16:detect_odr_violation=0:max_malloc_fill_size=4194304"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=99"; }

int main(int argc, char** argv) {
  using namespace mc;
  std::string prop = "C00", tier = "quick", evidence, replay_dir = ".", replay_file, known_file, only, level = "model_checking";
  int workers = 8; double budget = 400, hang = 60; std::vector<std::string> assumptions;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return std::string(argv[++i]); };
    if (a == "--property") prop = next(); else if (a == "--tier") tier = next(); else if (a == "--evidence") evidence = next();
    else if (a == "--replay-dir") replay_dir = next(); else if (a == "--replay") replay_file = next(); else if (a == "--known") known_file = next();
    else if (a == "--workers") workers = atoi(next().c_str()); else if (a == "--budget") budget = atof(next().c_str());
    else if (a == "--only") only = next(); else if (a == "--hang") hang = atof(next().c_str()); else if (a == "--assume") assumptions.push_back(next());
    else if (a == "--level") level = next();
    else if (a == "--list") { for (auto& s : spaces()) printf("%s: %s\n", s.name.c_str(), s.bounds.c_str()); return 0; }
  }
  is_thorough = tier == "thorough";
  if (!known_file.empty()) load_known(known_file.c_str(), prop);
  auto share = [] (size_t n) { void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) infra("mmap"); return p; };
  G = new (share(sizeof(Global))) Global;
  auto* all = static_cast<Shared*>(share(sizeof(Shared) * (workers + 1)));
  W = &all[workers];
  auto& S = spaces();
  if (S.empty() || S.size() > 256) infra("bad number of spaces");

  if (!replay_file.empty()) {
    std::ifstream in(replay_file); std::string line, sp, ch;
    while (std::getline(in, line)) { if (line.rfind("space=", 0) == 0) sp = line.substr(6); if (line.rfind("choices=", 0) == 0) ch = line.substr(8); }
    int idx = -1; for (size_t i = 0; i < S.size(); ++i) if (S[i].name == sp) idx = i;
    if (idx < 0) infra("unknown space %s", sp.c_str());
    path.clear(); std::stringstream ss(ch); std::string t; while (std::getline(ss, t, ',')) if (!t.empty()) path.push_back(atoi(t.c_str()));
    auto saved = path; auto d = describe(idx, saved, replay_file + ".trace");
    printf("%s", d.c_str()); fflush(stdout);
    replaying_fixed = true; split_depth = 1 << 30; path = saved; arity.clear(); path.reserve(kMaxPath); arity.reserve(kMaxPath);
    std::string sig, msg; int rc = run_once(S[idx], sig, msg);
    if (rc == 0 && S[idx].leak_check) { long long g[2]; for (auto& x : g) { size_t b = live_bytes(); run_once(S[idx], sig, msg); x = (long long) live_bytes() - (long long) b; } if (g[0] && g[1]) { rc = 1; msg = "memory leak"; } }
    printf(rc == 1 ? "REPRODUCED: %s\n" : "not reproduced%s\n", rc == 1 ? msg.c_str() : ""); return rc == 1;
  }

  double t0 = now(); deadline = t0 + budget;
  std::vector<pid_t> pids(workers);
  std::string tmpl = replay_dir + "/.out." + prop + "." + std::to_string(getpid()) + ".";
  for (int w = 0; w < workers; ++w) {
    fflush(stdout); fflush(stderr);
    pids[w] = fork();
    if (!pids[w]) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      int fd = open((tmpl + std::to_string(w)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 1); dup2(fd, 2); close(fd);
      W = &all[w]; worker_id = w; worker_count = workers; notes.reserve(1024);
      for (size_t i = 0; i < S.size(); ++i) {
        if (!only.empty() && S[i].name.find(only) == std::string::npos) { W->space_done[i] = 1; continue; }
        explore_space(i);
        if (W->violated || G->stop || W->capped) break;
      }
      W->done.store(1); fflush(stdout); _exit(0);
    }
  }
  // Monitor.
  std::vector<int> status(workers, -1); std::vector<uint64_t> last(workers, 0); std::vector<double> since(workers, now());
  std::vector<bool> hung(workers, false); int alive = workers;
  while (alive) {
    for (int w = 0; w < workers; ++w) if (pids[w] > 0) {
      int st; pid_t r = waitpid(pids[w], &st, WNOHANG);
      if (r == pids[w]) {
        status[w] = st; pids[w] = 0; --alive;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) G->stop.store(1);   // stop the others, we have something to report
        continue;
      }
      uint64_t b = all[w].beat.load();
      if (b != last[w]) { last[w] = b; since[w] = now(); }
      else if (now() - since[w] > hang) { hung[w] = true; kill(pids[w], SIGKILL); since[w] = now() + 1e9; G->stop.store(1); }
    }
    usleep(20000);
  }
  // Collect.
  uint64_t execs = 0, steps = 0, nontriv = 0, pruned = 0; bool capped = false; int maxlen = 0, violations = 0, infra_errors = 0;
  std::vector<std::string> samples; std::vector<uint64_t> khits(64, 0);
  for (int w = 0; w < workers; ++w) {
    execs += all[w].execs; steps += all[w].steps; nontriv += all[w].nontriv; pruned += all[w].pruned; capped |= all[w].capped != 0;
    maxlen = std::max(maxlen, all[w].maxlen.load());
    for (int i = 0; i < all[w].nsamples && samples.size() < 12; ++i) samples.push_back(all[w].samples[i]);
    for (int i = 0; i < 64; ++i) khits[i] += all[w].known_hits[i];
  }
  std::set<std::string> seen;
  auto handle = [&] (int w, std::string kind, std::string detail) {
    std::vector<uint16_t> p(all[w].path, all[w].path + all[w].pathlen.load());
    int sp = all[w].space;
    std::string outf = tmpl + "r"; bool h = false; int st = 0, confirmed = 0; std::string out;
    for (int k = 0; k < 2; ++k) {     // replay alone, twice, with a longer limit than the exploration
      st = replay_child(sp, p, outf, hang * 2, h);
      bool bad = h || WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 43 && WEXITSTATUS(st) != 3);
      if (bad) ++confirmed;
    }
    out = slurp(outf); unlink(outf.c_str());
    if (confirmed < 2) {
      printf("MC-INFRASTRUCTURE-ERROR: %s in space %s did not reproduce when replayed alone (%d of 2)\n%s\n", kind.c_str(), S[sp].name.c_str(), confirmed, detail.c_str());
      ++infra_errors; return;
    }
    // A crash whose first diagnostic line is listed counts as a known finding as well.
    std::string key = S[sp].name + "|" + kind;
    if (!seen.insert(key).second) return;
    std::string trace = describe(sp, p, outf); unlink(outf.c_str());
    std::string file = replay_dir + "/" + prop + "-" + std::to_string(++violations) + ".replay";
    std::ofstream o(file);
    o << "property=" << prop << "\nspace=" << S[sp].name << "\nchoices=";
    for (size_t i = 0; i < p.size(); ++i) o << (i ? "," : "") << p[i];
    o << "\nkind=" << kind << "\ntier=" << tier << "\ntrace:\n" << trace << "message:\n" << detail << "\noutput of the replay:\n" << out.substr(0, 6000) << "\n";
    o.close();
    printf("---- %s, space %s\n%s%s\n%s", kind.c_str(), S[sp].name.c_str(), trace.substr(0, 3000).c_str(), detail.substr(0, 2000).c_str(), kind == "oracle" ? "" : (out.substr(0, 2500) + "\n").c_str());
    printf("VIOLATION property=%s replay=%s\n", prop.c_str(), file.c_str());
  };
  for (int w = 0; w < workers; ++w) {
    int st = status[w];
    if (hung[w]) handle(w, "hang", "execution made no progress");
    else if (WIFSIGNALED(st)) {
      if (WTERMSIG(st) == SIGKILL) { printf("MC-INFRASTRUCTURE-ERROR: worker killed (out of memory?)\n"); ++infra_errors; }
      else handle(w, "crash", "worker died of signal " + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")");
    } else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { printf("%s", slurp(tmpl + std::to_string(w)).c_str()); ++infra_errors; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) != 0) handle(w, "sanitizer report", "worker exited with status " + std::to_string(WEXITSTATUS(st)));
    else if (all[w].violated) handle(w, "oracle", std::string(all[w].sig) + ": " + all[w].msg);
  }
  for (int w = 0; w < workers; ++w) unlink((tmpl + std::to_string(w)).c_str());
  for (size_t i = 0; i < known.size() && i < 64; ++i) if (khits[i]) printf("KNOWN-FINDING: property=%s %s (%llu executions)\n", prop.c_str(), known[i].c_str(), (unsigned long long) khits[i]);

  bool exhaustive = !capped && !violations && !infra_errors;
  for (size_t i = 0; i < S.size(); ++i) for (int w = 0; w < workers; ++w) exhaustive = exhaustive && all[w].space_done[i];
  double wall = now() - t0;
  printf("%s %s: %llu executions, %llu transitions, %llu distinct states, longest execution %d choices, %llu infeasible, %s, %.1f s, violations %d\n",
    prop.c_str(), tier.c_str(), (unsigned long long) execs, (unsigned long long) steps, (unsigned long long) G->states.load(), maxlen,
    (unsigned long long) pruned, exhaustive ? "complete" : "NOT complete (capped or stopped)", wall, violations);
  std::ostringstream sp;
  for (size_t i = 0; i < S.size(); ++i) {
    uint64_t e = 0, st = 0; bool done = true; for (int w = 0; w < workers; ++w) { e += all[w].space_execs[i]; st += all[w].space_steps[i]; done = done && all[w].space_done[i]; }
    printf("  %-40s %12llu executions %12llu transitions %s\n", S[i].name.c_str(), (unsigned long long) e, (unsigned long long) st, done ? "" : "(incomplete)");
    sp << (i ? ",\n    " : "\n    ") << "{\"space\": \"" << json_escape(S[i].name) << "\", \"bounds\": \"" << json_escape(S[i].bounds) << "\", \"executions\": " << e << ", \"transitions\": " << st << ", \"complete\": " << (done ? "true" : "false") << "}";
  }
  if (!evidence.empty()) {
    const char* seed = getenv("VERIF_SEED");
    std::ofstream o(evidence);
    o << "{\n \"property\": \"" << prop << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << (seed ? atoi(seed) : 1)
      << ",\n \"level\": \"" << level << "\",\n \"coverage\": {\n  \"states\": " << G->states.load() << ",\n  \"transitions\": " << steps
      << ",\n  \"traces_validated_against_impl\": " << execs << ",\n  \"evaluations\": " << execs << ",\n  \"distinct_nontrivial\": " << nontriv
      << ",\n  \"rule\": \"one evaluation is one complete execution of the real library under one sequence of choices; every sequence within the bounds is run exactly once, so all are distinct; non-trivial as marked by the harness (the execution reached the comparison it exists for)\""
      << ",\n  \"infeasible_choice_sequences\": " << pruned << ",\n  \"longest_execution_choices\": " << maxlen << ",\n  \"state_table_overflow\": " << G->table_full.load()
      << ",\n  \"exhaustive\": " << (exhaustive ? "true" : "false") << ",\n  \"spaces\": [" << sp.str() << "],\n  \"samples\": [";
    for (size_t i = 0; i < samples.size(); ++i) o << (i ? ",\n    " : "\n    ") << "\"" << json_escape(samples[i]) << "\"";
    o << "]\n },\n \"assumptions\": [";
    for (size_t i = 0; i < assumptions.size(); ++i) o << (i ? ", " : "") << "\"" << json_escape(assumptions[i]) << "\"";
    o << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
  }
  if (violations) return 1;
  if (infra_errors) return 3;
  if (!execs) { printf("MC-INFRASTRUCTURE-ERROR: nothing explored\n"); return 3; }
  return 0;
}
