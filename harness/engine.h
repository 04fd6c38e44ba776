// A small property-based testing engine: every random decision of a case is a
// recorded choice, so any case can be replayed and shrunk from its choices.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

struct Violation {
  std::string msg;
};
// The generated case is outside the property's domain; counted, not judged.
struct Excluded {
  std::string why;
};

class Src {
 public:
  // random mode
  explicit Src(uint64_t seed) : state(seed) {}
  // replay mode
  explicit Src(const std::vector<uint64_t>* choices) : replay(choices) {}
  // byte mode (coverage-guided)
  Src(const uint8_t* data, size_t size) : data(data), size(size) {}
  // uniform in [0, n); 0 is the simplest outcome
  uint64_t draw(uint64_t n);
  int range(int lo, int hi) { return lo + static_cast<int>(draw(hi - lo + 1)); }
  // true with probability num/den; false is the simplest
  bool chance(int num, int den) {
    return draw(den) >= static_cast<uint64_t>(den - num);
  }
  bool coin() { return draw(2) == 1; }
  int weighted(std::initializer_list<int> weights);
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[draw(v.size())];
  }
  // small numbers mostly, up to max now and then
  int size_upto(int max);
  template <class T>
  void shuffle(std::vector<T>& v) {
    for (size_t i = 1; i < v.size(); i++) {
      size_t j = i - draw(i + 1);
      std::swap(v[i], v[j]);
    }
  }
  std::vector<uint64_t> record;
  std::vector<uint64_t> forced;  // the first outcomes, in random mode
  // mirror of the record in shared memory, so that a crash leaves it behind
  uint64_t* shared = nullptr;
  uint32_t* shared_n = nullptr;
  uint32_t shared_cap = 0;

 private:
  uint64_t state = 0;
  const std::vector<uint64_t>* replay = nullptr;
  size_t pos = 0;
  const uint8_t* data = nullptr;
  size_t size = 0;
};

struct Case {
  explicit Case(Src& s) : s(s) {}
  Src& s;
  std::string desc;         // the generated input, written out
  // sets desc and leaves it behind for a crash
  void describe(const std::string& d);
  bool nontrivial = false;  // by the property's stated rule
  std::vector<std::string> labels;
  void label(const std::string& l) { labels.push_back(l); }
  [[noreturn]] void fail(const std::string& m) { throw Violation{m}; }
  [[noreturn]] void exclude(const std::string& w) { throw Excluded{w}; }
  template <class F>
  void expect(bool ok, F message) {
    if (!ok) fail(message());
  }
};

// c.check(condition, message): the message is only made when it is needed
#define check(ok, ...) expect(!!(ok), [&]() -> std::string { return __VA_ARGS__; })

typedef void (*CheckFn)(Case&);
struct Check {
  std::string prop, name;
  int weight;  // share of the ordinary cases
  int rare;    // or, when not 0, how many cases of a quick run
  CheckFn fn;
  int each = 0;  // the first cases of a run: one for each value of its first draw
};
struct PropInfo {
  std::string rule;  // how cases are made and what makes one non-trivial
  int quick_cases;
};
std::vector<Check>& registry();
std::map<std::string, PropInfo>& prop_infos();
struct Register {
  Register(const char* prop, const char* name, int weight, int rare, CheckFn fn, int each = 0) {
    registry().push_back({prop, name, weight, rare, fn, each});
  }
};
struct RegisterProp {
  RegisterProp(const char* prop, int quick_cases, const char* rule) {
    prop_infos()[prop] = {rule, quick_cases};
  }
};
#define CHECK_CASE_(prop, name, weight, rare)                     \
  static void prop##_##name(Case& c);                             \
  static Register prop##_##name##_reg(#prop, #name, weight, rare, \
                                      prop##_##name);             \
  static void prop##_##name(Case& c)
#define CHECK_CASE(prop, name, weight) CHECK_CASE_(prop, name, weight, 0)
// for costly cases: about this many of them in a quick run
#define CHECK_RARE(prop, name, count) CHECK_CASE_(prop, name, 0, count)
// an exhaustive sweep in `parts` cases, all of them in every run; the body is
// given the part, which is its first draw
#define CHECK_EACH(prop, name, parts)                                  \
  static void prop##_##name(Case& c, int part);                        \
  static void prop##_##name##_each(Case& c) {                          \
    prop##_##name(c, static_cast<int>(c.s.draw(parts)));               \
  }                                                                    \
  static Register prop##_##name##_reg(#prop, #name, 0, 1,              \
                                      prop##_##name##_each, parts);    \
  static void prop##_##name(Case& c, int part)
#define PROPERTY(prop, cases, rule) \
  static RegisterProp prop##_info(#prop, cases, rule);

int pbt_main(int argc, char** argv);
// Runs the property's checks on one generated case (check chosen by a draw).
void run_one(const std::vector<const Check*>& checks, Case& c);
std::string quote(const std::string& s);
// forked helper that never ran any case: see C05
extern void (*engine_worker_start_hook)();
std::string scratch_dir();
void engine_scratch_for_fuzzing();
