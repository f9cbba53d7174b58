// Choice-sequence property-based testing engine.
//
// A property draws every decision from a Src.  In random mode the decisions
// come from a PRNG seeded by VERIF_SEED and are recorded; in replay mode they
// are read back from a recorded sequence (missing ones are 0).  Value 0 of a
// draw is by convention the simplest choice, so shrinking edits the sequence
// towards fewer and smaller numbers.
#ifndef VP_ENGINE_H
#define VP_ENGINE_H

#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <functional>
#include <initializer_list>

namespace vp {

struct Failure {          // deliberately not a std::exception
  std::string cls, msg;
};

struct Discard {};        // the drawn case is outside the domain

[[noreturn]] void fail(const std::string& cls, const std::string& msg);
#define VP_CHECK(cond, cls, msg) do { if (!(cond)) ::vp::fail((cls), (msg)); } while (0)

uint64_t hash64(const void*, size_t, uint64_t seed = 0);
inline uint64_t hash64(const std::string& s, uint64_t seed = 0) { return hash64(s.data(), s.size(), seed); }
inline uint64_t mix(uint64_t a, uint64_t b)
{
  uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

class Rng {
public:
  explicit Rng(uint64_t s = 1) { seed(s); }
  void seed(uint64_t s) { s_ = s; for (int i = 0; i < 4; ++i) next(); }
  uint64_t next()
  {
    uint64_t z = (s_ += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t b) { return b ? next() % b : next(); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
private:
  uint64_t s_;
};

struct Shm;

class Src {
public:
  // Uniform draw in [0, bound); bound 0 means the full 64-bit range.
  uint64_t draw(uint64_t bound);
  // Draw with a distribution of its own in random mode.
  uint64_t draw(uint64_t bound, const std::function<uint64_t(Rng&)>& f);
  // Integer in [lo, hi], simplest is lo.
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
  // Continuation flag of a list: true to go on (0 = stop, so that deleting a
  // block of choices deletes list elements).
  bool more(unsigned stop_pct) { return draw(2, [&](Rng& r) { return (uint64_t)!r.chance(stop_pct, 100); }) != 0; }
  // Geometric-ish small size in [0, hi].
  size_t size(size_t hi, unsigned stop_pct = 25);
  // true with probability num/den; false is simplest.
  bool chance(unsigned num, unsigned den);
  // index chosen with the given weights; 0 simplest.
  size_t weighted(std::initializer_list<unsigned> w);
  template <class T> const T& one_of(const std::vector<T>& v) { return v[draw(v.size())]; }

  Rng& rng() { return rng_; }
  bool replaying() const { return replaying_; }

  // Reporting
  void label(const std::string& l) { labels.push_back(l); }
  void note(const std::string& s);
  bool describing() const { return want_desc; }
  void nontrivial(uint64_t h) { nt_hash = mix(nt_hash, h); nt = true; }
  void nontrivial(const std::string& s) { nontrivial(hash64(s)); }

  // engine side
  bool replaying_ = false, want_desc = false, nt = false;
  uint64_t nt_hash = 0;
  const uint64_t* in = 0; size_t n_in = 0, pos = 0;
  Shm* shm = 0;
  Rng rng_;
  std::vector<std::string> labels;
  std::string desc;
  int desc_fd = -1;
private:
  void record(uint64_t v);
};

struct Prop {
  const char* name;
  void (*fn)(Src&);
  unsigned weight;
};

struct Config {
  const char* id = "";
  const char* rule = "";
  std::vector<Prop> props;
  bool leak_check = false;        // LeakSanitizer after every few cases
  unsigned leak_every = 40;
  double case_timeout = 60;       // seconds before a case counts as hung
  unsigned workers = 8;
  bool nondeterministic = false;  // schedules influence the outcome: see confirm()
  double shrink_s = 60;
  void (*worker_init)() = 0;
  bool hard_fail = false;         // end the process at once on failure (threads are running)
};

int main_impl(int argc, char** argv, const Config&);

// ---- dictionary of literals taken from the code under test ----------------
const std::vector<int64_t>& dict_ints();
const std::vector<std::string>& dict_strings();

std::string quote(const std::string& s, size_t maxlen = 200);  // printable form
double now();                    // monotonic seconds, for bounds only

} // namespace vp
#endif
