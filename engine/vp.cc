#include "vp.h"

#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <exception>
#include <typeinfo>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VP_ASAN 1
#endif
#endif
#ifdef VP_ASAN
extern "C" int __lsan_do_recoverable_leak_check();
#endif

namespace vp {

static const size_t MAX_CHOICES = 1u << 21;

struct Shm {
  volatile uint64_t n;
  volatile uint64_t case_index;
  volatile uint64_t prop;
  volatile double started;          // 0: between cases
  volatile int stop;
  volatile uint64_t done_cases;
  volatile uint64_t leak_from;      // first case index since last leak check
  char cls[128];
  char msg[4096];
  uint64_t choices[MAX_CHOICES];
};

static Shm* g_hard = 0;   // set while a case of a hard_fail configuration runs

[[noreturn]] void fail(const std::string& cls, const std::string& msg)
{
  if (g_hard) {
    snprintf(g_hard->cls, sizeof g_hard->cls, "oracle:%s", cls.c_str());
    snprintf(g_hard->msg, sizeof g_hard->msg, "%s", msg.c_str());
    if (getenv("VP_VERBOSE")) fprintf(stderr, "FAIL %s: %s\n", cls.c_str(), msg.c_str());
    _exit(10);
  }
  throw Failure{cls, msg};
}

double now()
{
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

uint64_t hash64(const void* p, size_t n, uint64_t seed)
{
  const unsigned char* s = (const unsigned char*)p;
  uint64_t h = 1469598103934665603ull ^ seed;
  for (size_t i = 0; i < n; ++i) { h ^= s[i]; h *= 1099511628211ull; }
  return mix(h, n);
}

std::string quote(const std::string& s, size_t maxlen)
{
  std::string o = "\"";
  char b[8];
  for (size_t i = 0; i < s.size(); ++i) {
    if (o.size() > maxlen) { o += "\"...(" + std::to_string(s.size()) + " bytes)"; return o; }
    unsigned char c = s[i];
    if (c == '\\' || c == '"') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c == '\r') o += "\\r";
    else if (c == '\t') o += "\\t";
    else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

// ---------------------------------------------------------------- Src
void Src::record(uint64_t v)
{
  if (shm && shm->n < MAX_CHOICES) { shm->choices[shm->n] = v; shm->n = shm->n + 1; }
}

void Src::note(const std::string& s)
{
  if (!want_desc) return;
  std::string t = desc.empty() ? s : "; " + s;
  desc += t;
  if (desc_fd >= 0 && write(desc_fd, t.data(), t.size()) < 0) {}
}

uint64_t Src::draw(uint64_t bound)
{
  return draw(bound, std::function<uint64_t(Rng&)>());
}

uint64_t Src::draw(uint64_t bound, const std::function<uint64_t(Rng&)>& f)
{
  uint64_t v;
  if (replaying_) {
    v = pos < n_in ? in[pos] : 0;
    ++pos;
    if (bound && v >= bound) v = v % bound;
  } else {
    v = f ? f(rng_) : rng_.below(bound);
    if (bound && v >= bound) v = v % bound;
  }
  record(v);
  return v;
}

size_t Src::size(size_t hi, unsigned stop_pct)
{
  return draw(hi + 1, [&](Rng& r) {
    uint64_t n = 0;
    while (n < hi && !r.chance(stop_pct, 100)) ++n;
    return n;
  });
}

bool Src::chance(unsigned num, unsigned den)
{
  return draw(2, [&](Rng& r) { return (uint64_t)r.chance(num, den); }) != 0;
}

size_t Src::weighted(std::initializer_list<unsigned> w)
{
  return draw(w.size(), [&](Rng& r) {
    unsigned tot = 0;
    for (unsigned x : w) tot += x;
    uint64_t k = r.below(tot), i = 0;
    for (unsigned x : w) { if (k < x) return i; k -= x; ++i; }
    return (uint64_t)0;
  });
}

// ---------------------------------------------------------------- dictionary
static std::vector<int64_t> g_ints;
static std::vector<std::string> g_strs;
static bool g_dict_loaded = false;

static void load_dict()
{
  if (g_dict_loaded) return;
  g_dict_loaded = true;
  const char* p = getenv("VP_DICT");
  FILE* f = p ? fopen(p, "r") : 0;
  if (f) {
    static char line[8192];
    while (fgets(line, sizeof line, f)) {
      size_t n = strlen(line);
      while (n && (line[n-1] == '\n')) line[--n] = 0;
      if (n > 2 && line[0] == 'i') g_ints.push_back(strtoll(line + 2, 0, 10));
      else if (n >= 2 && line[0] == 's') {
        std::string s;
        for (size_t i = 2; i + 1 < n; i += 2) {
          char h[3] = { line[i], line[i+1], 0 };
          s += (char)strtol(h, 0, 16);
        }
        g_strs.push_back(s);
      }
    }
    fclose(f);
  }
  if (g_ints.empty()) g_ints.push_back(65536);
  if (g_strs.empty()) g_strs.push_back("x");
}

const std::vector<int64_t>& dict_ints() { load_dict(); return g_ints; }
const std::vector<std::string>& dict_strings() { load_dict(); return g_strs; }

// ---------------------------------------------------------------- runner
namespace {

struct Stats {
  uint64_t evals = 0, discards = 0;
  std::map<std::string, uint64_t> labels;
  std::unordered_set<uint64_t> nt;
  std::vector<std::string> samples;
};

enum { EX_FAIL = 10, EX_LEAK = 11, EX_STD = 12, EX_SAN = 23 };

struct Case {
  size_t prop = 0;
  std::vector<uint64_t> ch;
  // history mode: random cases first, first+stride, ..., last in one process
  bool range = false;
  uint64_t seed = 0, first = 0, stride = 1, last = 0;
};

struct Outcome {
  bool failed = false;
  std::string cls, msg, log;
};

const Config* C;
Shm* new_shm()
{
  void* p = mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return (Shm*)p;
}

std::string tmpdir;

void set_failure(Shm* s, const std::string& cls, const std::string& msg)
{
  snprintf(s->cls, sizeof s->cls, "%s", cls.c_str());
  snprintf(s->msg, sizeof s->msg, "%s", msg.c_str());
}

// Runs one case in this process; exits on failure.
void run_case_here(Shm* shm, Src& s, size_t prop)
{
  shm->started = now();
  if (C->hard_fail) g_hard = shm;
  try {
    C->props[prop].fn(s);
  }
  catch (const Discard&) { shm->started = 0; throw; }
  catch (const Failure& f) {
    set_failure(shm, "oracle:" + f.cls, f.msg);
    if (getenv("VP_VERBOSE")) fprintf(stderr, "FAIL %s: %s\n", f.cls.c_str(), f.msg.c_str());
    _exit(EX_FAIL);
  }
  catch (const std::exception& e) {
    set_failure(shm, std::string("unexpected-exception:") + typeid(e).name(), e.what());
    _exit(EX_FAIL);
  }
  catch (...) {
    set_failure(shm, "unexpected-exception:unknown", "unknown exception left the property");
    _exit(EX_FAIL);
  }
  shm->started = 0;
}

bool leak_now()
{
#ifdef VP_ASAN
  return __lsan_do_recoverable_leak_check() != 0;
#else
  return false;
#endif
}

void redirect(const std::string& file)
{
  int fd = open(file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
  int n = open("/dev/null", O_RDONLY);
  if (n >= 0) { dup2(n, 0); close(n); }
}

std::string slurp(const std::string& file, size_t max = 20000)
{
  std::string o;
  FILE* f = fopen(file.c_str(), "r");
  if (!f) return o;
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0 && o.size() < max) o.append(b, n);
  fclose(f);
  return o;
}

std::string death_class(int st, const std::string& log, std::string& msg)
{
  size_t p = log.find("SUMMARY: ");
  if (p != std::string::npos) {
    size_t e = log.find('\n', p);
    msg = log.substr(p, e - p);
    // class: tool + kind only (the place may shift while shrinking)
    size_t a = msg.find("Sanitizer: ");
    std::string kind = a == std::string::npos ? "" : msg.substr(a + 11);
    size_t sp = kind.find_first_of(" (");
    if (kind.compare(0, 9, "data race") == 0) return "sanitizer:data-race";
    return "sanitizer:" + kind.substr(0, sp);
  }
  size_t u = log.find("runtime error: ");
  if (u != std::string::npos) {
    size_t e = log.find('\n', u);
    msg = log.substr(u, e - u);
    return "sanitizer:undefined-behaviour";
  }
  if (WIFSIGNALED(st)) {
    msg = "killed by signal " + std::to_string(WTERMSIG(st)) + " " + log.substr(0, 300);
    return "signal:" + std::to_string(WTERMSIG(st));
  }
  msg = "process exited with status " + std::to_string(WEXITSTATUS(st)) + " " + log.substr(0, 300);
  return "exit:" + std::to_string(WEXITSTATUS(st));
}

std::vector<size_t> make_wheel()
{
  std::vector<size_t> wheel;
  for (size_t i = 0; i < C->props.size(); ++i)
    for (unsigned j = 0; j < C->props[i].weight; ++j) wheel.push_back(i);
  return wheel;
}

// Runs a recorded case in a forked child.
Outcome run_forked(const Case& c, double timeout, std::vector<uint64_t>* used = 0, std::string* desc = 0)
{
  static Shm* shm = new_shm();
  static int serial = 0;
  shm->n = 0; shm->cls[0] = 0; shm->msg[0] = 0; shm->started = 0;
  std::string logf = tmpdir + "/fork" + std::to_string(getpid()) + "_" + std::to_string(serial++ % 64) + ".log";
  std::string df = logf + ".desc";
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (!pid) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setpgid(0, 0);
    redirect(logf);
    if (C->worker_init) C->worker_init();
    if (c.range) {
      std::vector<size_t> wheel = make_wheel();
      for (uint64_t i = c.first; i <= c.last; i += c.stride) {
        Src s;
        s.rng_.seed(mix(mix(c.seed, 0x5EEDull), i));
        s.shm = shm; shm->n = 0;
        try { run_case_here(shm, s, wheel[mix(c.seed, i ^ 0xABCDull) % wheel.size()]); } catch (const Discard&) {}
      }
      _exit(0);
    }
    Src s;
    s.replaying_ = true; s.in = c.ch.data(); s.n_in = c.ch.size(); s.shm = shm;
    s.want_desc = desc != 0;
    if (desc) s.desc_fd = open(df.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0600);
    try { run_case_here(shm, s, c.prop); } catch (const Discard&) { _exit(0); }
    if (C->leak_check && leak_now()) { set_failure(shm, "leak", "memory leaked by this case"); _exit(EX_LEAK); }
    _exit(0);
  }
  double t0 = now();
  int st = 0;
  Outcome o;
  for (unsigned spin = 0;; ++spin) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (now() - t0 > timeout) {
      kill(-pid, SIGKILL); kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      o.failed = true; o.cls = "hang";
      o.msg = "case did not finish within " + std::to_string((int)timeout) + " s";
      break;
    }
    usleep(spin < 50 ? 200 : 2000);
  }
  kill(-pid, SIGKILL);
  if (!o.failed && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    o.failed = true;
    o.log = slurp(logf);
    if (WIFEXITED(st) && (WEXITSTATUS(st) == EX_FAIL || WEXITSTATUS(st) == EX_LEAK)) { o.cls = shm->cls; o.msg = shm->msg; }
    else o.cls = death_class(st, o.log, o.msg);
  }
  if (used) used->assign(shm->choices, shm->choices + shm->n);
  if (desc) { *desc = slurp(df, 200000); unlink(df.c_str()); }
  unlink(logf.c_str());
  return o;
}

// A forked worker searching for failures.
void worker(Shm* shm, unsigned k, uint64_t seed, uint64_t first, uint64_t stride, double deadline, const std::string& statf)
{
  if (C->worker_init) C->worker_init();
  Stats st;
  std::vector<size_t> wheel = make_wheel();
  std::map<std::string, unsigned> sampled;
  uint64_t since_leak = 0;
  shm->leak_from = first;
  for (uint64_t i = first; !shm->stop && now() < deadline; i += stride) {
    Src s;
    size_t prop = wheel[mix(seed, i ^ 0xABCDull) % wheel.size()];
    s.rng_.seed(mix(mix(seed, 0x5EEDull), i));
    s.shm = shm;
    shm->n = 0; shm->case_index = i; shm->prop = prop;
    s.want_desc = sampled[C->props[prop].name] < 2;
    bool disc = false;
    try { run_case_here(shm, s, prop); } catch (const Discard&) { disc = true; }
    st.evals++;
    if (disc) st.discards++;
    else {
      st.labels[std::string("prop:") + C->props[prop].name]++;
      for (auto& l : s.labels) st.labels[l]++;
      if (s.nt) {
        if (st.nt.size() < 3000000) st.nt.insert(mix(s.nt_hash, prop));
        if (s.want_desc && !s.desc.empty()) {
          sampled[C->props[prop].name]++;
          st.samples.push_back(std::string(C->props[prop].name) + ": " + s.desc.substr(0, 600));
        }
      }
    }
    shm->done_cases = st.evals;
    if (C->leak_check && ++since_leak >= C->leak_every) {
      since_leak = 0;
      if (leak_now()) { set_failure(shm, "leak", "leak in a range of cases"); _exit(EX_LEAK); }
      shm->leak_from = i + stride;
    }
  }
  if (C->leak_check && since_leak && leak_now()) { set_failure(shm, "leak", "leak in a range of cases"); _exit(EX_LEAK); }
  FILE* f = fopen(statf.c_str(), "w");
  if (!f) _exit(3);
  fprintf(f, "E %llu %llu\n", (unsigned long long)st.evals, (unsigned long long)st.discards);
  for (auto& l : st.labels) fprintf(f, "L %llu %s\n", (unsigned long long)l.second, l.first.c_str());
  for (auto& x : st.samples) fprintf(f, "S %s\n", quote(x, 700).c_str());
  for (uint64_t h : st.nt) fprintf(f, "H %llx\n", (unsigned long long)h);
  fclose(f);
  _exit(0);
}

void read_stats(const std::string& file, Stats& t)
{
  FILE* f = fopen(file.c_str(), "r");
  if (!f) return;
  static char line[65536];
  while (fgets(line, sizeof line, f)) {
    size_t n = strlen(line);
    if (n && line[n-1] == '\n') line[--n] = 0;
    if (line[0] == 'E') { unsigned long long a, b; if (sscanf(line + 2, "%llu %llu", &a, &b) == 2) { t.evals += a; t.discards += b; } }
    else if (line[0] == 'L') { char* e; unsigned long long v = strtoull(line + 2, &e, 10); t.labels[e + 1] += v; }
    else if (line[0] == 'S') { t.samples.push_back(line + 2); }
    else if (line[0] == 'H') t.nt.insert(strtoull(line + 2, 0, 16));
  }
  fclose(f);
  unlink(file.c_str());
}

bool same(const Outcome& a, const std::string& cls) { return a.failed && a.cls == cls; }

Case shrink(Case c, const std::string& cls, double budget, double timeout, unsigned& tries)
{
  double end = now() + budget;
  unsigned rep = C->nondeterministic ? 3 : 1;
  auto bad = [&](const Case& t, std::vector<uint64_t>& used) {
    for (unsigned i = 0; i < rep; ++i) {
      if (now() > end) return false;
      ++tries;
      if (same(run_forked(t, timeout, &used), cls)) return true;
    }
    return false;
  };
  std::vector<uint64_t> used;
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    // delete blocks
    for (size_t len = std::max<size_t>(1, c.ch.size() / 2); len >= 1 && now() < end; len /= 2) {
      for (size_t i = 0; i < c.ch.size() && now() < end; ) {
        Case t = c;
        t.ch.erase(t.ch.begin() + i, t.ch.begin() + std::min(t.ch.size(), i + len));
        if (bad(t, used) && (used.size() < c.ch.size() || (used.size() == c.ch.size() && used < c.ch))) {
          c.ch = used; progress = true;
        } else i += len;
      }
      if (len == 1) break;
    }
    // zero blocks
    for (size_t len = std::max<size_t>(1, c.ch.size() / 4); len >= 1 && now() < end; len /= 2) {
      for (size_t i = 0; i < c.ch.size() && now() < end; i += len) {
        Case t = c;
        bool nz = false;
        for (size_t j = i; j < std::min(t.ch.size(), i + len); ++j) { nz |= t.ch[j] != 0; t.ch[j] = 0; }
        if (!nz) continue;
        if (bad(t, used)) { t.ch = used; if (t.ch.size() <= c.ch.size() && t.ch != c.ch) { c = t; progress = true; } }
      }
      if (len == 1) break;
    }
    // lower single values
    for (size_t i = 0; i < c.ch.size() && now() < end; ++i) {
      uint64_t lo = 0, hi = c.ch[i];
      while (lo < hi && now() < end && i < c.ch.size()) {
        uint64_t mid = lo + (hi - lo) / 2;
        Case t = c;
        t.ch[i] = mid;
        if (bad(t, used) && used.size() <= c.ch.size()) { if (used != c.ch) progress = true; c.ch = used; hi = std::min(mid, i < used.size() ? used[i] : 0); }
        else lo = mid + 1;
      }
    }
  }
  return c;
}

std::string json(const std::string& s)
{
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

bool load_replay(const char* file, Case& c, std::string& cls)
{
  FILE* f = fopen(file, "r");
  if (!f) return false;
  static char line[1 << 16];
  bool ok = false;
  while (fgets(line, sizeof line, f)) {
    if (line[0] == '#') continue;
    char* e = strchr(line, '\n'); if (e) *e = 0;
    if (!strncmp(line, "prop ", 5)) {
      for (size_t i = 0; i < C->props.size(); ++i) if (!strcmp(C->props[i].name, line + 5)) { c.prop = i; ok = true; }
    } else if (!strncmp(line, "class ", 6)) cls = line + 6;
    else if (!strncmp(line, "range ", 6)) {
      unsigned long long a, b, d, e2;
      if (sscanf(line + 6, "%llu %llu %llu %llu", &a, &b, &d, &e2) == 4) { c.range = true; c.seed = a; c.first = b; c.stride = d; c.last = e2; }
    }
    else if (line[0] == 'c' && line[1] == ' ') c.ch.push_back(strtoull(line + 2, 0, 10));
  }
  fclose(f);
  return ok;
}

void save_replay(const std::string& file, const Case& c, const Outcome& o, const std::string& desc)
{
  FILE* f = fopen(file.c_str(), "w");
  if (!f) return;
  fprintf(f, "# replay of a violation of %s; run: tools/check.py %s --replay <this file>\n", C->id, C->id);
  std::string m = o.msg + "\n" + desc;
  size_t p = 0;
  while (p < m.size() && p < 8000) { size_t e = m.find('\n', p); if (e == std::string::npos) e = m.size(); fprintf(f, "# %s\n", m.substr(p, e - p).c_str()); p = e + 1; }
  fprintf(f, "prop %s\nclass %s\n", C->props[c.prop].name, o.cls.c_str());
  if (c.range) fprintf(f, "range %llu %llu %llu %llu\n", (unsigned long long)c.seed, (unsigned long long)c.first, (unsigned long long)c.stride, (unsigned long long)c.last);
  for (uint64_t v : c.ch) fprintf(f, "c %llu\n", (unsigned long long)v);
  fclose(f);
}

} // namespace

// usage: bin run --seed N --time SECS --out RESULT.json --tmp DIR --replays DIR [--max N]
//        bin replay FILE
int main_impl(int argc, char** argv, const Config& cfg)
{
  C = &cfg;
  std::string mode = argc > 1 ? argv[1] : "";
  std::map<std::string, std::string> o;
  for (int i = 2; i + 1 < argc; i += 2) if (!strncmp(argv[i], "--", 2)) o[argv[i] + 2] = argv[i + 1];
  tmpdir = o.count("tmp") ? o["tmp"] : "/tmp";
  signal(SIGPIPE, SIG_DFL);
  load_dict();

  if (mode == "replay" && argc > 2) {
    Case c; std::string cls;
    if (!load_replay(argv[2], c, cls)) { fprintf(stderr, "cannot read replay file\n"); return 2; }
    unsigned reps = C->nondeterministic ? 30 : 1;
    for (unsigned i = 0; i < reps; ++i) {
      std::string desc;
      Outcome r = run_forked(c, cfg.case_timeout, 0, &desc);
      if (i == 0 && !desc.empty()) printf("case: %s\n", desc.c_str());
      if (r.failed) { printf("FAILED class=%s: %s\n%s\n", r.cls.c_str(), r.msg.c_str(), r.log.c_str()); return 1; }
    }
    printf("passed\n");
    return 0;
  }
  if (mode == "case" && argc > 2) {   // run in the foreground, for debugging
    Case c; std::string cls;
    if (!load_replay(argv[2], c, cls)) return 2;
    Shm* shm = new_shm();
    if (C->worker_init) C->worker_init();
    Src s; s.replaying_ = true; s.in = c.ch.data(); s.n_in = c.ch.size(); s.shm = shm; s.want_desc = true;
    setenv("VP_VERBOSE", "1", 1);
    run_case_here(shm, s, c.prop);
    printf("case: %s\npassed\n", s.desc.c_str());
    return 0;
  }
  if (mode != "run") { fprintf(stderr, "usage: run|replay\n"); return 2; }

  uint64_t seed = strtoull(o["seed"].c_str(), 0, 10);
  double secs = atof(o["time"].c_str());
  unsigned W = cfg.workers;
  if (o.count("workers")) W = atoi(o["workers"].c_str());
  double t0 = now(), deadline = t0 + secs;
  Stats total;
  std::map<std::string, unsigned> flaky;
  std::map<std::string, std::string> flaky_msg;
  bool violated = false;
  Case vcase; Outcome vout; std::string vdesc; unsigned tries = 0;
  std::vector<uint64_t> next(W);
  std::vector<Shm*> shms(W);
  for (unsigned k = 0; k < W; ++k) { shms[k] = new_shm(); next[k] = k; }
  uint64_t lost = 0, hangs = 0;

  while (!violated && now() < deadline) {
    std::vector<pid_t> pids(W, 0);
    std::vector<std::string> logs(W), stats(W);
    for (unsigned k = 0; k < W; ++k) {
      shms[k]->stop = 0; shms[k]->n = 0; shms[k]->cls[0] = 0; shms[k]->started = 0; shms[k]->done_cases = 0;
      logs[k] = tmpdir + "/w" + std::to_string(k) + ".log";
      stats[k] = tmpdir + "/w" + std::to_string(k) + ".stats";
      pids[k] = fork();
      if (pids[k] < 0) { perror("fork"); return 3; }
      if (!pids[k]) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        setpgid(0, 0);
        redirect(logs[k]);
        worker(shms[k], k, seed, next[k], W, deadline, stats[k]);
      }
    }
    struct Fail { Case c; Outcome o; uint64_t idx, leak_from, first; unsigned k; };
    std::vector<uint64_t> firsts = next;
    double round0 = now();
    std::vector<Fail> fails;
    unsigned alive = W;
    bool stopping = false;
    while (alive) {
      for (unsigned k = 0; k < W; ++k) {
        if (!pids[k]) continue;
        int st;
        bool gone = waitpid(pids[k], &st, WNOHANG) == pids[k];
        bool hung = false;
        double started = shms[k]->started;
        if (!gone && started > 0 && now() - started > cfg.case_timeout) {
          hung = true;
          kill(-pids[k], SIGKILL); kill(pids[k], SIGKILL);
          waitpid(pids[k], &st, 0);
          gone = true;
        }
        if (!gone) continue;
        kill(-pids[k], SIGKILL);
        pids[k] = 0; --alive;
        next[k] = shms[k]->case_index + W;
        if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0) { read_stats(stats[k], total); continue; }
        if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 3) { fprintf(stderr, "worker setup error\n%s\n", slurp(logs[k]).c_str()); return 3; }
        lost += shms[k]->done_cases;
        Fail f;
        f.k = k; f.first = firsts[k]; f.idx = shms[k]->case_index; f.leak_from = shms[k]->leak_from;
        f.c.prop = shms[k]->prop;
        f.c.ch.assign(shms[k]->choices, shms[k]->choices + shms[k]->n);
        f.o.failed = true;
        f.o.log = slurp(logs[k]);
        if (hung) { f.o.cls = "hang"; f.o.msg = "case did not finish"; ++hangs; }
        else if (WIFEXITED(st) && (WEXITSTATUS(st) == EX_FAIL || WEXITSTATUS(st) == EX_LEAK)) { f.o.cls = shms[k]->cls; f.o.msg = shms[k]->msg; }
        else f.o.cls = death_class(st, f.o.log, f.o.msg);
        fails.push_back(f);
        if (!stopping) { stopping = true; for (unsigned j = 0; j < W; ++j) shms[j]->stop = 1; }
      }
      usleep(5000);
    }
    for (size_t fi = 0; fi < fails.size() && !violated; ++fi) {
      Fail& f = fails[fi];
      if (f.o.cls == "leak") {
        // find the leaking case of the range
        std::vector<size_t> wheel = make_wheel();
        bool found = false;
        for (uint64_t i = f.leak_from; i <= f.idx && !found; i += W) {
          // regenerate the case in a child, capturing its choices
          Shm* shm = shms[f.k];
          shm->n = 0;
          size_t prop = wheel[mix(seed, i ^ 0xABCDull) % wheel.size()];
          pid_t pid = fork();
          if (!pid) {
            redirect(logs[f.k]);
            if (cfg.worker_init) cfg.worker_init();
            Src s; s.rng_.seed(mix(mix(seed, 0x5EEDull), i)); s.shm = shm;
            try { run_case_here(shm, s, prop); } catch (const Discard&) { _exit(0); }
            _exit(leak_now() ? EX_LEAK : 0);
          }
          int st; waitpid(pid, &st, 0);
          if (WIFEXITED(st) && WEXITSTATUS(st) == EX_LEAK) {
            found = true;
            f.c.prop = prop;
            f.c.ch.assign(shm->choices, shm->choices + shm->n);
            f.o.log = slurp(logs[f.k]);
          }
        }
        if (!found) { flaky["leak"]++; flaky_msg["leak"] = f.o.log; continue; }
      }
      unsigned need = 3, got = 0, runs = cfg.nondeterministic ? 40 : 3;
      double cend = now() + (cfg.nondeterministic ? 60 : 4 * cfg.case_timeout);
      for (unsigned i = 0; i < runs && got < need && now() < cend; ++i) {
        if (same(run_forked(f.c, cfg.case_timeout), f.o.cls)) ++got;
        else if (!cfg.nondeterministic) break;
      }
      if (!got && !cfg.nondeterministic && f.o.cls != "hang") {
        // Not reproducible alone: does the whole history reproduce it?
        Case h = f.c;
        h.range = true; h.seed = seed; h.first = f.first; h.stride = W; h.last = f.idx;
        double lim = (now() - round0) * 3 + 30;
        unsigned ok = 0;
        for (unsigned i = 0; i < 3; ++i) { if (same(run_forked(h, lim), f.o.cls)) ++ok; else break; }
        if (ok == 3) {
          // shorten the history from the front
          for (uint64_t n = (h.last - h.first) / W; n > 0; n /= 2) {
            Case t = h;
            t.first = h.first + n * W;
            if (t.first <= t.last && same(run_forked(t, lim), f.o.cls)) { h = t; n = (h.last - h.first) / W + 1; }
            if (now() - t0 > secs + 200) break;
          }
          violated = true; vcase = h; vout = f.o;
          vdesc = "history of cases in one process";
          break;
        }
      }
      unsigned& fl = flaky[f.o.cls];
      fl += 1 + (cfg.nondeterministic ? got : 0);
      flaky_msg[f.o.cls] = std::string(cfg.props[f.c.prop].name) + ": " + f.o.msg + "\n" + f.o.log.substr(0, 1500);
      if (got >= need || (cfg.nondeterministic && fl >= 3)) {
        violated = true;
        vout = f.o;
        vcase = f.c;
        if (got >= need && f.o.cls != "hang") vcase = shrink(f.c, f.o.cls, getenv("VP_SHRINK") ? atof(getenv("VP_SHRINK")) : cfg.shrink_s, std::min(cfg.case_timeout, 20.0), tries);
        Outcome last;
        for (unsigned i = 0; i < (cfg.nondeterministic ? 40u : 1u); ++i) {
          last = run_forked(vcase, cfg.case_timeout, 0, &vdesc);
          if (last.failed) break;
        }
        if (last.failed) vout = last;
      }
    }
    if (!fails.empty() && !violated) fprintf(stderr, "%s: %zu unconfirmed failure(s), search goes on\n", cfg.id, fails.size());
  }

  std::string replay;
  if (violated) {
    char nm[64];
    uint64_t h = hash64(vcase.ch.data(), vcase.ch.size() * 8, vcase.prop);
    snprintf(nm, sizeof nm, "%s-%016llx.replay", cfg.id, (unsigned long long)h);
    replay = o["replays"] + "/" + nm;
    save_replay(replay, vcase, vout, vdesc);
  }
  FILE* f = fopen(o["out"].c_str(), "w");
  if (!f) { perror("out"); return 3; }
  fprintf(f, "{\n \"evaluations\": %llu,\n \"discarded\": %llu,\n \"distinct_nontrivial\": %llu,\n \"rule\": %s,\n \"wall_s\": %.2f,\n",
    (unsigned long long)(total.evals + lost), (unsigned long long)total.discards, (unsigned long long)total.nt.size(), json(cfg.rule).c_str(), now() - t0);
  fprintf(f, " \"labels\": {");
  const char* sep = "";
  for (auto& l : total.labels) { fprintf(f, "%s\n  %s: %llu", sep, json(l.first).c_str(), (unsigned long long)l.second); sep = ","; }
  fprintf(f, "},\n \"samples\": [");
  sep = "";
  std::map<std::string, unsigned> per;
  unsigned ns = 0;
  for (auto& s : total.samples) {
    std::string key = s.substr(0, s.find(':'));
    if (per[key]++ >= 3 || ns >= 12) continue;
    fprintf(f, "%s\n  %s", sep, json(s).c_str()); sep = ","; ++ns;
  }
  fprintf(f, "],\n \"unconfirmed\": {");
  sep = "";
  for (auto& x : flaky) { if (violated && x.first == vout.cls) continue; fprintf(f, "%s\n  %s: %s", sep, json(x.first).c_str(), json(flaky_msg[x.first]).c_str()); sep = ","; }
  fprintf(f, "},\n \"violation\": ");
  if (violated)
    fprintf(f, "{\"class\": %s, \"message\": %s, \"case\": %s, \"prop\": %s, \"replay\": %s, \"choices\": %zu, \"shrink_tries\": %u, \"log\": %s}\n",
      json(vout.cls).c_str(), json(vout.msg).c_str(), json(vdesc.substr(0, 3000)).c_str(), json(cfg.props[vcase.prop].name).c_str(), json(replay).c_str(), vcase.ch.size(), tries, json(vout.log.substr(0, 4000)).c_str());
  else fprintf(f, "null\n");
  fprintf(f, "}\n");
  fclose(f);
  return violated ? 1 : 0;
}

} // namespace vp
