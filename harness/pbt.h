// Minimal property-based-testing engine: choice tapes, multi-process search,
// crash/hang containment, tape shrinking, replay files and evidence.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <map>
#include <sstream>

namespace pbt {

struct Fail {
  std::string kind, msg;
  Fail(const std::string& k, const std::string& m) : kind(k), msg(m) {}
};
// Thrown to abandon a case that is outside the property's domain.
struct Discard {};

class G {
 public:
  // [0,n); 0 is the simplest choice. n==0 is an error -> returns 0.
  uint64_t draw(uint64_t n);
  // Inclusive range; shrinks to lo.
  int64_t range(int64_t lo, int64_t hi) {
    if (hi <= lo) return lo;
    return lo + (int64_t)draw((uint64_t)(hi - lo) + 1);
  }
  // true with probability num/den; shrinks to false.
  bool chance(unsigned num, unsigned den) {
    return draw(den) >= den - num;
  }
  bool flip() { return draw(2) == 1; }
  // Geometric-ish small size in [0,max]; shrinks to 0.
  size_t size(size_t max);
  // As size(), but now and then far larger.
  size_t many(size_t usual, size_t large) { return draw(40) == 39 ? (size_t)range((int64_t)usual, (int64_t)large) : size(usual); }
  template <class T> const T& pick(const std::vector<T>& v) {
    return v[draw(v.size())];
  }
  template <class T, size_t N> const T& pick(const T (&v)[N]) {
    return v[draw(N)];
  }
  // Enumerates 0..n-1 over the case index (exhaustive facets).
  uint64_t enumerate(uint64_t n);
  // Index chosen with the given weights.
  size_t weighted(const std::vector<unsigned>& w);
  uint64_t bits64();
  // A "nice" or wild finite double.
  double real(double lo, double hi);

  // Case bookkeeping.
  void nontrivial(uint64_t key);
  void nontrivial(const std::string& key);
  void label(const std::string& name);
  void sample(const std::string& text);
  // Human-readable trace; only kept on replay.
  void note(const std::string& text);
  bool verbose() const;
  uint64_t case_index() const;
  // Private scratch directory of this worker, emptied before every case that
  // asks for it.
  std::string scratch();
};

uint64_t hash64(const void* p, size_t n, uint64_t h = 1469598103934665603ULL);
inline uint64_t hash64(const std::string& s) { return hash64(s.data(), s.size()); }

enum Flags { kNone = 0, kLeak = 1 };
struct Facet {
  const char* name;
  long quick;      // Cases in the quick tier.
  long thorough;   // Cases in the thorough tier.
  void (*fn)(G&);
  unsigned flags;
};

int Main(int argc, char** argv, const char* property, const char* rule,
         const std::vector<Facet>& facets);

// A known finding: returns true while the defect is still present.
struct Known {
  const char* id;          // matches an entry of known_findings.txt
  const char* what;
  bool (*still_fails)();
};
void SetKnown(const std::vector<Known>& k);

std::string Show(const std::string& s, size_t max = 2000);

}  // namespace pbt

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define FAIL(k, m) do { std::ostringstream os_; os_ << m; \
  throw pbt::Fail(k, std::string(__FILE__ ":" PBT_STR(__LINE__) ": ") + os_.str()); } while (0)
#define CHECK_M(c, m) do { if (!(c)) FAIL("check:" PBT_STR(__LINE__), #c " -- " << m); } while (0)
#define CHECK_T(c) CHECK_M(c, "")
#define CHECK_EQ(a, b) do { auto a_ = (a); auto b_ = (b); if (!(a_ == b_)) \
  FAIL("check:" PBT_STR(__LINE__), #a " == " #b " -- got [" << a_ << "] vs [" << b_ << "]"); } while (0)
#define CHECK_EQM(a, b, m) do { auto a_ = (a); auto b_ = (b); if (!(a_ == b_)) \
  FAIL("check:" PBT_STR(__LINE__), #a " == " #b " -- got [" << a_ << "] vs [" << b_ << "] " << m); } while (0)
#endif
