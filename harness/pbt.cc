#include "pbt.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <math.h>
#include <algorithm>
#include <fstream>
#include <set>
#include <unordered_set>
#include <new>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define HAVE_ALLOC 1
#endif

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=77:"
         "allocator_may_return_null=1:max_allocation_size_mb=3000:"
         "detect_stack_use_after_return=0:strict_string_checks=0:"
         "quarantine_size_mb=16:handle_abort=1:abort_on_error=0";
}
extern "C" const char* __ubsan_default_options() {
  return "halt_on_error=1:exitcode=77:print_stacktrace=1";
}

namespace pbt {

static const size_t kTapeMax = 1 << 19;
struct Shm {
  uint32_t facet;
  uint64_t case_idx;
  uint32_t in_case;
  uint32_t tape_len;
  uint32_t failed;
  char kind[128];
  char msg[60000];
  uint64_t tape[kTapeMax];
};
struct Ctl {
  volatile uint32_t stop;
};

static Shm* S;       // Current process' record.
static Ctl* ctl;
static const std::vector<uint64_t>* replay_tape;
static uint64_t rng_s;
static uint64_t cur_case;
static bool g_verbose;
static std::vector<std::string>* g_notes;
static bool g_quiet_stats;  // no stat collection (shrink, replays, leak reruns)
static std::unordered_set<uint64_t>* g_hashes;
static std::map<std::string, uint64_t>* g_labels;
static std::vector<std::string>* g_samples;
static std::map<uint32_t, int>* g_sample_count;
static bool g_case_nontrivial;
static std::string g_scratch_root;
static const char* g_property;
static std::vector<Known> g_known;
void SetKnown(const std::vector<Known>& k) { g_known = k; }

uint64_t hash64(const void* p, size_t n, uint64_t h) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
  h ^= h >> 32;
  return h;
}
static uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static uint64_t rnd() {
  rng_s += 0x9e3779b97f4a7c15ULL;
  uint64_t z = rng_s;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

static uint64_t next(uint64_t n, uint64_t forced, bool has_forced) {
  if (S->tape_len >= kTapeMax) throw Discard();
  uint64_t v;
  if (replay_tape) {
    v = S->tape_len < replay_tape->size() ? (*replay_tape)[S->tape_len] : 0;
    if (n && v >= n) v = n - 1;
  } else if (has_forced) {
    v = forced;
  } else {
    v = n ? rnd() % n : rnd();
  }
  S->tape[S->tape_len++] = v;
  return v;
}
uint64_t G::draw(uint64_t n) {
  if (n <= 1) return 0;
  return next(n, 0, false);
}
uint64_t G::bits64() { return next(0, 0, false); }
uint64_t G::enumerate(uint64_t n) {
  if (n <= 1) return 0;
  return next(n, cur_case % n, true);
}
size_t G::size(size_t max) {
  if (max == 0) return 0;
  uint64_t k = draw(16);
  if (k < 10) return range(0, std::min<size_t>(max, 4));
  if (k < 14) return range(0, std::min<size_t>(max, 12));
  return range(0, max);
}
size_t G::weighted(const std::vector<unsigned>& w) {
  uint64_t t = 0;
  for (size_t i = 0; i < w.size(); ++i) t += w[i];
  uint64_t k = draw(t);
  for (size_t i = 0; i < w.size(); ++i) {
    if (k < w[i]) return i;
    k -= w[i];
  }
  return w.size() - 1;
}
double G::real(double lo, double hi) {
  switch (draw(6)) {
    case 0: {  // small integers within range
      double v = (double)range(-10, 10);
      return std::min(hi, std::max(lo, v));
    }
    case 1: {  // multiples of 1/8
      double v = range(-1000, 1000) / 8.0;
      return std::min(hi, std::max(lo, v));
    }
    case 2: return draw(2) ? hi : lo;
    case 3: {  // few decimals
      double v = floor((lo + (hi - lo) * (draw(1000001) / 1e6)) * 1000) / 1000;
      return std::min(hi, std::max(lo, v));
    }
    default:
      return lo + (hi - lo) * (double)(bits64() >> 11) / 9007199254740992.0;
  }
}
void G::nontrivial(uint64_t key) {
  g_case_nontrivial = true;
  if (g_quiet_stats) return;
  g_hashes->insert(mix(key ^ (S->facet * 0x9e3779b97f4a7c15ULL)));
}
void G::nontrivial(const std::string& key) { nontrivial(hash64(key)); }
void G::label(const std::string& n) {
  if (g_quiet_stats) return;
  (*g_labels)[n]++;
}
void G::sample(const std::string& t) {
  if (g_quiet_stats) return;
  int& c = (*g_sample_count)[S->facet];
  if (c >= 2) return;
  ++c;
  g_samples->push_back(Show(t, 1500));
}
bool G::verbose() const { return g_verbose; }
uint64_t G::case_index() const { return cur_case; }
void G::note(const std::string& t) {
  if (g_verbose && g_notes) g_notes->push_back(t);
}
static void rmrf_inside(const std::string& d) {
  // Only ever called below the scratch root created by this harness.
  if (g_scratch_root.empty() || d.compare(0, g_scratch_root.size(), g_scratch_root) != 0) return;
  DIR* dir = opendir(d.c_str());
  if (!dir) return;
  while (dirent* e = readdir(dir)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string p = d + "/" + n;
    struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
      rmrf_inside(p);
      rmdir(p.c_str());
    } else {
      unlink(p.c_str());
    }
  }
  closedir(dir);
}
std::string G::scratch() {
  char b[64];
  snprintf(b, sizeof b, "/p%d", (int)getpid());
  std::string d = g_scratch_root + b;
  rmrf_inside(d);
  mkdir(d.c_str(), 0755);
  return d;
}

std::string Show(const std::string& s, size_t max) {
  std::string o;
  for (size_t i = 0; i < s.size(); ++i) {
    if (o.size() > max) { o += "...(" + std::to_string(s.size()) + " bytes)"; break; }
    unsigned char c = s[i];
    if (c == '\n' || (c >= 32 && c < 127)) o += c;
    else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
  }
  return o;
}
static std::string JsonStr(const std::string& s) {
  std::string o = "\"";
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char c = s[i];
    if (c == '"') o += "\\\"";
    else if (c == '\\') o += "\\\\";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

static long g_case_cpu = 20;
static volatile long g_ticks;
static void OnProf(int) {
  // Half-second ticks of CPU time.
  if (++g_ticks >= 2 * g_case_cpu) {
    strcpy(S->kind, "hang");
    strcpy(S->msg, "case exceeded its CPU-time limit");
    S->failed = 1;
    _exit(78);
  }
  char b[128];
  int fd = open("/proc/self/statm", O_RDONLY);
  if (fd < 0) return;
  ssize_t n = read(fd, b, sizeof b - 1);
  close(fd);
  if (n <= 0) return;
  b[n] = 0;
  char* p = strchr(b, ' ');
  if (p && atol(p) > 3L * 1024 * 1024 / 4) {  // 3 GB of 4 kB pages
    strcpy(S->kind, "oom");
    strcpy(S->msg, "case exceeded its memory limit");
    S->failed = 1;
    _exit(78);
  }
}
static void ArmTimer(long sec) {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  g_ticks = 0;
  if (sec) {
    it.it_value.tv_usec = 500000;
    it.it_interval.tv_usec = 500000;
  }
  setitimer(ITIMER_PROF, &it, 0);
}

static void SetFail(const std::string& k, const std::string& m) {
  snprintf(S->kind, sizeof S->kind, "%s", k.c_str());
  std::string mm = m.substr(0, sizeof S->msg - 1);
  memcpy(S->msg, mm.c_str(), mm.size() + 1);
  S->failed = 1;
}

static size_t Allocated() {
#ifdef HAVE_ALLOC
  return __sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}

// Runs one case in this process. Returns false on failure.
static bool RunBody(const Facet& f) {
  G g;
  S->tape_len = 0;
  S->failed = 0;
  S->in_case = 1;
  g_case_nontrivial = false;
  ArmTimer(g_case_cpu);
  try {
    f.fn(g);
  } catch (const Fail& e) {
    SetFail(e.kind, e.msg);
  } catch (const Discard&) {
    if (!g_quiet_stats) (*g_labels)["(discarded)"]++;
  } catch (const std::bad_alloc&) {
    SetFail("exception:bad_alloc", "std::bad_alloc escaped");
  } catch (const std::exception& e) {
    SetFail("exception", std::string("exception escaped: ") + e.what());
  } catch (...) {
    SetFail("exception", "unknown exception escaped");
  }
  ArmTimer(0);
  S->in_case = 0;
  return !S->failed;
}
static bool RunCase(const Facet& f) {
  bool ok = RunBody(f);
  if (!ok || !(f.flags & kLeak)) return ok;
#ifdef HAVE_ALLOC
  // The same case again, from its tape: once the process is warm a case must
  // not leave memory behind.
  std::vector<uint64_t> tape(S->tape, S->tape + S->tape_len);
  const std::vector<uint64_t>* saved = replay_tape;
  bool saved_q = g_quiet_stats;
  replay_tape = &tape;
  g_quiet_stats = true;
  size_t d[3];
  for (int i = 0; i < 3; ++i) {
    size_t a = Allocated();
    ok = RunBody(f);
    d[i] = Allocated() - a;
    if (!ok) break;
  }
  replay_tape = saved;
  g_quiet_stats = saved_q;
  if (ok && (ssize_t)d[1] > 0 && (ssize_t)d[2] > 0 && d[1] == d[2]) {
    SetFail("leak", "every execution of this case leaves " + std::to_string(d[2]) +
            " bytes allocated");
    ok = false;
  }
#endif
  return ok;
}

static uint64_t CaseSeed(uint64_t seed, const std::string& prop, const char* facet, uint64_t i) {
  return mix(hash64(prop + "/" + facet) ^ mix(seed * 1000003ULL + 17) ^ mix(i * 2654435761ULL + 1));
}

template <class T> static T* MapShared(size_t n) {
  void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
  return (T*)p;
}
static double Now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static std::string ReadAll(const std::string& p) {
  std::ifstream i(p.c_str(), std::ios::binary);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}
static std::string CrashKind(int status, const std::string& err, std::string* msg) {
  std::string kind = "crash";
  size_t p = err.rfind("ERROR: AddressSanitizer: ");
  if (p != std::string::npos) {
    size_t s = p + strlen("ERROR: AddressSanitizer: ");
    size_t e = err.find_first_of(" \n", s);
    kind = "asan:" + err.substr(s, e - s);
    *msg = err.substr(p, 3500);
  } else if ((p = err.rfind("runtime error: ")) != std::string::npos) {
    kind = "ubsan";
    size_t b = err.rfind('\n', p);
    *msg = err.substr(b == std::string::npos ? 0 : b + 1, 2500);
  } else {
    std::ostringstream os;
    if (WIFSIGNALED(status)) os << "signal " << WTERMSIG(status);
    else os << "process exited with status " << WEXITSTATUS(status);
    os << "\n" << err.substr(err.size() > 2000 ? err.size() - 2000 : 0);
    *msg = os.str();
  }
  return kind;
}

static void Redirect(const std::string& errfile) {
  int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (fd >= 0) { dup2(fd, 2); close(fd); }
  fd = open("/dev/null", O_WRONLY);
  if (fd >= 0) { dup2(fd, 1); close(fd); }
}

struct Outcome {
  bool failed;
  std::string kind, msg;
  std::vector<uint64_t> tape;
  std::vector<std::string> notes;
};

static std::string g_rundir;
static void ResetStats() {
  g_hashes = new std::unordered_set<uint64_t>;
  g_labels = new std::map<std::string, uint64_t>;
  g_samples = new std::vector<std::string>;
  g_sample_count = new std::map<uint32_t, int>;
}

// Executes a tape in a forked child.
static Outcome ExecTape(Shm* shm, const std::vector<Facet>& fs, uint32_t facet,
                        const std::vector<uint64_t>& tape, bool verbose) {
  Outcome o;
  memset(shm->kind, 0, sizeof shm->kind);
  shm->msg[0] = 0;
  shm->failed = 0;
  shm->tape_len = 0;
  std::string err = g_rundir + "/replay.err", nf = g_rundir + "/replay.notes";
  unlink(nf.c_str());
  fflush(0);
  pid_t pid = fork();
  if (pid == 0) {
    Redirect(err);
    S = shm;
    S->facet = facet;
    ResetStats();
    g_quiet_stats = true;
    g_verbose = verbose;
    g_notes = new std::vector<std::string>;
    replay_tape = &tape;
    RunCase(fs[facet]);
    if (verbose) {
      std::ofstream n(nf.c_str(), std::ios::binary);
      for (size_t i = 0; i < g_notes->size(); ++i) n << (*g_notes)[i] << "\n";
    }
    _exit(S->failed ? 79 : 0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  o.failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
  if (o.failed) {
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 79 || WEXITSTATUS(st) == 78)) {
      o.kind = shm->kind;
      o.msg = shm->msg;
    } else {
      o.kind = CrashKind(st, ReadAll(err), &o.msg);
    }
  }
  o.tape.assign(shm->tape, shm->tape + shm->tape_len);
  if (verbose) {
    std::string n = ReadAll(nf);
    std::stringstream ss(n);
    std::string l;
    while (std::getline(ss, l)) o.notes.push_back(l);
  }
  return o;
}

static bool Shorter(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
}

static std::vector<uint64_t> Shrink(Shm* shm, const std::vector<Facet>& fs, uint32_t facet,
                                    const std::vector<uint64_t>& start,
                                    const std::string& kind, long* tried) {
  std::vector<uint64_t> best = start;
  double t0 = Now();
  long budget = 3000;
  double tmax = 60;
  *tried = 0;
  bool progress = true;
  auto attempt = [&](const std::vector<uint64_t>& c) -> bool {
    if (*tried >= budget || Now() - t0 > tmax) return false;
    ++*tried;
    Outcome o = ExecTape(shm, fs, facet, c, false);
    if (o.failed && o.kind == kind) {
      std::vector<uint64_t> t = Shorter(o.tape, c) ? o.tape : c;
      if (Shorter(t, best)) { best = t; return true; }
    }
    return false;
  };
  while (progress && *tried < budget && Now() - t0 < tmax) {
    progress = false;
    for (size_t blk = 256; blk >= 1; blk /= 2) {
      for (size_t i = 0; i + blk <= best.size() && *tried < budget && Now() - t0 < tmax;) {
        std::vector<uint64_t> c(best.begin(), best.begin() + i);
        c.insert(c.end(), best.begin() + i + blk, best.end());
        if (attempt(c)) progress = true; else i += blk;
      }
      for (size_t i = 0; i + blk <= best.size() && *tried < budget && Now() - t0 < tmax; i += blk) {
        std::vector<uint64_t> c = best;
        bool any = false;
        for (size_t k = i; k < i + blk; ++k) { any |= c[k] != 0; c[k] = 0; }
        if (any && attempt(c)) progress = true;
      }
    }
    for (size_t i = 0; i < best.size() && *tried < budget && Now() - t0 < tmax; ++i) {
      uint64_t lo = 0;
      while (i < best.size() && best[i] > lo && *tried < budget && Now() - t0 < tmax) {
        std::vector<uint64_t> c = best;
        uint64_t mid = lo + (best[i] - lo) / 2;
        if (mid == best[i]) break;
        c[i] = mid;
        if (attempt(c)) progress = true; else lo = mid + 1;
      }
    }
  }
  return best;
}

static void WriteReplay(const std::string& path, const std::string& prop, const char* facet,
                        const std::string& kind, const std::string& msg,
                        const std::vector<uint64_t>& tape, const std::vector<std::string>& notes,
                        const std::string& mode, uint64_t seed, uint64_t idx, uint64_t stride) {
  std::ofstream o(path.c_str(), std::ios::binary);
  o << "property " << prop << "\nfacet " << facet << "\nmode " << mode << "\nseed " << seed
    << "\ncase " << idx << "\nstride " << stride << "\nkind " << kind << "\ntape " << tape.size();
  for (size_t i = 0; i < tape.size(); ++i) o << " " << tape[i];
  o << "\n--- failure\n" << Show(msg, 6000) << "\n--- case (minimised)\n";
  for (size_t i = 0; i < notes.size(); ++i) o << Show(notes[i], 4000) << "\n";
}

int Main(int argc, char** argv, const char* property, const char* rule,
         const std::vector<Facet>& facets) {
  g_property = property;
  std::string tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
  if (tier != "thorough") tier = "quick";
  uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), 0, 10) : 1;
  double scale = getenv("PBT_SCALE") ? atof(getenv("PBT_SCALE")) : 1.0;
  int nworkers = getenv("PBT_WORKERS") ? atoi(getenv("PBT_WORKERS")) : 8;
  double cap = tier == "quick" ? 240 : 3000;
  if (getenv("PBT_CAP")) cap = atof(getenv("PBT_CAP"));
  std::string outdir = getenv("PBT_OUT") ? getenv("PBT_OUT") : ".";
  std::string only;
  std::string replay_file;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--replay" && i + 1 < argc) replay_file = argv[++i];
    else if (a == "--facet" && i + 1 < argc) only = argv[++i];
  }
  mkdir(outdir.c_str(), 0755);
  g_rundir = outdir + "/build/run_" + property;
  mkdir((outdir + "/build").c_str(), 0755);
  mkdir(g_rundir.c_str(), 0755);
  mkdir((outdir + "/evidence").c_str(), 0755);
  mkdir((outdir + "/replays").c_str(), 0755);
  char tmpl[] = "/tmp/verif_scratch_XXXXXX";
  char* sd = mkdtemp(tmpl);
  if (!sd) { perror("mkdtemp"); return 2; }
  g_scratch_root = sd;
  signal(SIGPROF, OnProf);
  ctl = MapShared<Ctl>(sizeof(Ctl));
  Shm* rshm = MapShared<Shm>(sizeof(Shm));
  struct Cleanup {
    pid_t owner;
    ~Cleanup() { if (getpid() == owner) { rmrf_inside(g_scratch_root); rmdir(g_scratch_root.c_str()); } }
  } cleanup = { getpid() };

  if (!replay_file.empty()) {
    std::ifstream in(replay_file.c_str());
    std::string line, fname, mode = "tape";
    std::vector<uint64_t> tape;
    uint64_t rseed = 1, rcase = 0, rstride = 1;
    while (std::getline(in, line)) {
      std::stringstream ss(line);
      std::string k;
      ss >> k;
      if (k == "facet") ss >> fname;
      else if (k == "mode") ss >> mode;
      else if (k == "seed") ss >> rseed;
      else if (k == "case") ss >> rcase;
      else if (k == "stride") ss >> rstride;
      else if (k == "tape") { size_t n; ss >> n; uint64_t v; while (ss >> v) tape.push_back(v); }
      else if (k == "---") break;
    }
    uint32_t fi = 0;
    for (; fi < facets.size(); ++fi) if (fname == facets[fi].name) break;
    if (fi == facets.size()) { fprintf(stderr, "unknown facet %s\n", fname.c_str()); return 2; }
    if (mode == "history") {
      // The failure needed the cases the worker ran before it.
      pid_t pid = fork();
      if (pid == 0) {
        Redirect(g_rundir + "/replay.err");
        S = rshm; ResetStats();
        for (uint64_t i = rcase % rstride; i <= rcase; i += rstride) {
          S->facet = fi; S->case_idx = i; cur_case = i;
          rng_s = CaseSeed(rseed, property, facets[fi].name, i);
          if (!RunCase(facets[fi])) _exit(79);
        }
        _exit(0);
      }
      int st; waitpid(pid, &st, 0);
      bool failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
      printf("replay(history): %s\n%s\n", failed ? "FAILS" : "passes", failed ? Show(rshm->msg).c_str() : "");
      return failed ? 1 : 0;
    }
    Outcome o = ExecTape(rshm, facets, fi, tape, true);
    printf("replay of facet %s: %s\n", fname.c_str(), o.failed ? "FAILS" : "passes");
    if (o.failed) printf("kind: %s\n%s\n", o.kind.c_str(), Show(o.msg, 8000).c_str());
    for (size_t i = 0; i < o.notes.size(); ++i) printf("  %s\n", Show(o.notes[i], 6000).c_str());
    if (o.failed) printf("VIOLATION property=%s replay=%s\n", property, replay_file.c_str());
    return o.failed ? 1 : 0;
  }

  double t0 = Now();
  // Known findings first.
  std::vector<std::string> known_lines;
  for (size_t i = 0; i < g_known.size(); ++i) {
    fflush(0);
    pid_t pid = fork();
    if (pid == 0) {
      Redirect(g_rundir + "/known.err");
      S = rshm; ResetStats(); g_quiet_stats = true;
      ArmTimer(g_case_cpu);
      bool f = true;
      try { f = g_known[i].still_fails(); } catch (...) { f = true; }
      _exit(f ? 1 : 0);
    }
    int st; waitpid(pid, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      printf("KNOWN-FINDING: property=%s %s\n", property, g_known[i].what);
      known_lines.push_back(g_known[i].what);
    }
  }

  std::vector<Shm*> shms;
  std::vector<pid_t> pids;
  fflush(0);
  for (int w = 0; w < nworkers; ++w) {
    Shm* sh = MapShared<Shm>(sizeof(Shm));
    shms.push_back(sh);
    pid_t pid = fork();
    if (pid == 0) {
      Redirect(g_rundir + "/w" + std::to_string(w) + ".err");
      S = sh;
      ResetStats();
      uint64_t evals = 0, ntcases = 0;
      std::vector<double> ftime(facets.size(), 0);
      std::vector<uint64_t> fcount(facets.size(), 0);
      bool capped = false;
      for (uint32_t f = 0; f < facets.size(); ++f) {
        if (!only.empty() && only != facets[f].name) continue;
        double fs = Now();
        long n = tier == "quick" ? facets[f].quick : facets[f].thorough;
        n = (long)(n * scale);
        if (n < 1) n = 1;
        for (long i = w; i < n; i += nworkers) {
          if (ctl->stop) break;
          if ((i / nworkers) % 16 == 0 && Now() - t0 > cap) { capped = true; break; }
          S->facet = f;
          S->case_idx = i;
          cur_case = i;
          rng_s = CaseSeed(seed, property, facets[f].name, i);
          bool ok = RunCase(facets[f]);
          ++evals;
          ++fcount[f];
          if (g_case_nontrivial) ++ntcases;
          if (!ok) {
            ctl->stop = 1;
            break;
          }
        }
        ftime[f] = Now() - fs;
        if (ctl->stop) break;
      }
      // Result file.
      std::ofstream o((g_rundir + "/w" + std::to_string(w) + ".res").c_str(), std::ios::binary);
      o << evals << " " << ntcases << " " << capped << " " << g_hashes->size() << "\n";
      for (size_t f = 0; f < facets.size(); ++f) o << fcount[f] << " " << ftime[f] << "\n";
      for (auto h : *g_hashes) o.write((const char*)&h, 8);
      o << "\n" << g_labels->size() << "\n";
      for (auto& l : *g_labels) o << l.second << " " << l.first << "\n";
      o << g_samples->size() << "\n";
      for (auto& s : *g_samples) o << s.size() << "\n" << s << "\n";
      o.close();
      rmrf_inside(g_scratch_root + "/p" + std::to_string((int)getpid()));
      _exit(S->failed ? 79 : 0);
    }
    pids.push_back(pid);
    unlink((g_rundir + "/w" + std::to_string(w) + ".res").c_str());
  }
  std::vector<int> status(nworkers, 0);
  for (int left = nworkers; left > 0; --left) {
    int st;
    pid_t p = wait(&st);
    for (int w = 0; w < nworkers; ++w)
      if (pids[w] == p) {
        status[w] = st;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) ctl->stop = 1;
      }
  }
  double search_s = Now() - t0;

  // Merge.
  uint64_t evals = 0, ntcases = 0;
  bool capped = false;
  std::unordered_set<uint64_t> hashes;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
  std::vector<uint64_t> fcount(facets.size(), 0);
  std::vector<double> ftime(facets.size(), 0);
  for (int w = 0; w < nworkers; ++w) {
    std::ifstream in((g_rundir + "/w" + std::to_string(w) + ".res").c_str(), std::ios::binary);
    uint64_t e, nt, nh;
    int c;
    if (!(in >> e >> nt >> c >> nh)) continue;
    evals += e; ntcases += nt; capped |= c;
    for (size_t f = 0; f < facets.size(); ++f) {
      uint64_t k; double t;
      in >> k >> t;
      fcount[f] += k;
      ftime[f] = std::max(ftime[f], t);
    }
    in.get();
    for (uint64_t i = 0; i < nh; ++i) { uint64_t h; in.read((char*)&h, 8); hashes.insert(h); }
    size_t nl;
    in >> nl;
    for (size_t i = 0; i < nl; ++i) {
      uint64_t v; std::string k;
      in >> v; in.get(); std::getline(in, k);
      labels[k] += v;
    }
    size_t ns;
    in >> ns;
    for (size_t i = 0; i < ns; ++i) {
      size_t len; in >> len; in.get();
      std::string s(len, 0);
      in.read(&s[0], len);
      if (w < 2 && samples.size() < 40) samples.push_back(s);
    }
  }

  // Failures.
  std::vector<std::string> violations;
  std::vector<std::string> unreproduced;
  for (int w = 0; w < nworkers && violations.empty(); ++w) {
    int st = status[w];
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
    Shm* sh = shms[w];
    uint32_t f = sh->facet;
    std::string kind, msg;
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 79 || WEXITSTATUS(st) == 78)) {
      kind = sh->kind; msg = sh->msg;
    } else {
      kind = CrashKind(st, ReadAll(g_rundir + "/w" + std::to_string(w) + ".err"), &msg);
    }
    std::vector<uint64_t> tape(sh->tape, sh->tape + sh->tape_len);
    printf("facet %s case %llu failed: %s\n%s\n", facets[f].name,
           (unsigned long long)sh->case_idx, kind.c_str(), Show(msg, 1500).c_str());
    fflush(stdout);
    std::string rp = outdir + "/replays/" + property + "-" + facets[f].name + "-" +
                     std::to_string(seed) + "-" + std::to_string(sh->case_idx) + ".txt";
    int rep = 0;
    std::string k0;
    for (int i = 0; i < 3; ++i) {
      Outcome o = ExecTape(rshm, facets, f, tape, false);
      if (o.failed) { ++rep; k0 = o.kind; }
    }
    if (rep == 3) {
      long tried = 0;
      std::vector<uint64_t> best = Shrink(rshm, facets, f, tape, k0, &tried);
      Outcome o = ExecTape(rshm, facets, f, best, true);
      if (!o.failed) { best = tape; o = ExecTape(rshm, facets, f, best, true); }
      WriteReplay(rp, property, facets[f].name, o.kind, o.msg, best, o.notes, "tape", seed,
                  sh->case_idx, nworkers);
      printf("minimised %zu -> %zu choices (%ld candidates); %s\n%s\n", tape.size(), best.size(),
             tried, o.kind.c_str(), Show(o.msg, 3000).c_str());
      for (size_t i = 0; i < o.notes.size(); ++i) printf("  | %s\n", Show(o.notes[i], 2000).c_str());
      violations.push_back(rp);
    } else {
      // May depend on the cases this worker ran before.
      int hrep = 0;
      for (int k = 0; k < 2; ++k) {
        fflush(0);
        pid_t pid = fork();
        if (pid == 0) {
          Redirect(g_rundir + "/hist.err");
          S = rshm; ResetStats(); g_quiet_stats = true;
          for (uint64_t i = w; i <= sh->case_idx; i += nworkers) {
            S->facet = f; S->case_idx = i; cur_case = i;
            rng_s = CaseSeed(seed, property, facets[f].name, i);
            if (!RunCase(facets[f])) _exit(79);
          }
          _exit(0);
        }
        int hst; waitpid(pid, &hst, 0);
        if (!(WIFEXITED(hst) && WEXITSTATUS(hst) == 0)) ++hrep;
      }
      if (hrep == 2) {
        WriteReplay(rp, property, facets[f].name, kind, msg, tape, std::vector<std::string>(),
                    "history", seed, sh->case_idx, nworkers);
        violations.push_back(rp);
      } else {
        unreproduced.push_back(std::string(facets[f].name) + ": " + kind + ": " + msg.substr(0, 500));
        printf("not reproduced (%d/3 alone, %d/2 with history)\n", rep, hrep);
      }
    }
  }

  std::ofstream ev((outdir + "/evidence/" + property + ".json").c_str());
  ev << "{\n \"property\": " << JsonStr(property) << ",\n \"tier\": " << JsonStr(tier)
     << ",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
     << "  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << hashes.size()
     << ",\n  \"nontrivial_cases\": " << ntcases
     << ",\n  \"rule\": " << JsonStr(rule) << ",\n  \"facets\": {";
  for (size_t f = 0; f < facets.size(); ++f)
    ev << (f ? ", " : "") << JsonStr(facets[f].name) << ": " << fcount[f];
  ev << "},\n  \"facet_seconds\": {";
  for (size_t f = 0; f < facets.size(); ++f)
    ev << (f ? ", " : "") << JsonStr(facets[f].name) << ": " << ftime[f];
  ev << "},\n  \"classes\": {";
  bool first = true;
  for (auto& l : labels) { ev << (first ? "" : ", ") << JsonStr(l.first) << ": " << l.second; first = false; }
  ev << "},\n  \"samples\": [";
  for (size_t i = 0; i < samples.size(); ++i) ev << (i ? ",\n   " : "\n   ") << JsonStr(samples[i]);
  ev << "],\n  \"time_capped\": " << (capped ? "true" : "false") << "\n },\n";
  ev << " \"wall_s\": " << (Now() - t0) << ",\n \"known_findings\": [";
  for (size_t i = 0; i < known_lines.size(); ++i) ev << (i ? ", " : "") << JsonStr(known_lines[i]);
  ev << "],\n \"unreproduced\": [";
  for (size_t i = 0; i < unreproduced.size(); ++i) ev << (i ? ", " : "") << JsonStr(unreproduced[i]);
  ev << "],\n \"violations\": " << violations.size() << "\n}\n";
  ev.close();
  printf("%s %s seed=%llu: %llu cases, %zu distinct non-trivial, %.1f s%s\n", property, tier.c_str(),
         (unsigned long long)seed, (unsigned long long)evals, hashes.size(), search_s,
         capped ? " (time cap reached)" : "");
  if (!violations.empty()) {
    for (size_t i = 0; i < violations.size(); ++i)
      printf("VIOLATION property=%s replay=%s\n", property, violations[i].c_str());
    fflush(stdout);
    return 1;
  }
  fflush(stdout);
  return 0;
}

}  // namespace pbt
