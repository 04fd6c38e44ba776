// C30: memory that runs out in the middle of a call. Every allocation the
// library makes with operator new can be made to fail.
#include <sanitizer/allocator_interface.h>

#include <exception>

#include "faults.h"
#include "gen.h"

namespace {
struct Op {
  int kind;  // 0 encode, 1 decode, 2 add tokens, 3 add special tokens
  U text;
  bool flag = false;
  std::vector<int> ids;
  std::vector<ATok> toks;
  std::string str() const {
    std::string r;
    if (kind == 0) return "encode " + show(text) + (flag ? "" : " without special tokens");
    if (kind == 1) {
      for (int i : ids) r += " " + std::to_string(i);
      return "decode" + r + (flag ? "" : " with special tokens");
    }
    for (auto& t : toks) r += " " + dump(ref::to_json(t));
    return (kind == 2 ? "add" : "add special") + r;
  }
  // what a caller is given; exceptions of the library pass
  std::string run(sut::Tokenizer& k) const {
    if (kind == 0) return show(k.encode(text, flag));
    if (kind == 1) return quote(k.decode(ids, flag));
    if (kind == 2) k.add_tokens(toks);
    if (kind == 3) k.add_special_tokens(toks);
    return "";
  }
  // without failures: what it throws is an outcome too
  std::string tell(sut::Tokenizer& k) const {
    try {
      return run(k);
    } catch (const std::exception& e) {
      return std::string("exception ") + e.what();
    }
  }
};
// how a call ended under a failing allocation
enum End { RETURNED, NO_MEMORY };
template <class F>
End under_fault(long n, bool more, F f) {
  faults::arm(n, more);
  try {
    f();
  } catch (const std::exception&) {
    faults::disarm();
    return NO_MEMORY;
  } catch (...) {
    faults::disarm();
    throw Violation{"what it threw is no std::exception"};
  }
  faults::disarm();
  return RETURNED;
}
}  // namespace
static Op gen_op(Src& s, const Config& cfg, bool change) {
  Op k;
  k.kind = s.weighted({5, 2, change ? 1 : 0, change ? 1 : 0});
  k.flag = s.coin();
  if (k.kind == 0) k.text = gen_text_for(s, cfg, 20);
  if (k.kind == 1)
    for (int m = s.range(0, 12); m > 0; m--) k.ids.push_back(s.chance(1, 6) ? -1 : s.range(0, 60));
  if (k.kind >= 2) k.toks = gen_added(s, cfg.hints, AddedOpts());
  return k;
}

PROPERTY(C30, 10000,
         "tokenizers being built, encoding, decoding and being given tokens while one allocation "
         "(or all from one on) fails; several failing places for each call. The call has to throw a "
         "standard exception or give what it gives otherwise; the tokenizer then gives the results of "
         "one that never met a failure; bytes in use are counted over repetitions as for C28. "
         "Non-trivial: an allocation failed")
CHECK_CASE(C30, calls, 3) {
  if (!faults::available()) c.exclude("not in this build");
  TokOpts to;
  Config cfg = gen_config(c.s, to);
  if (!cfg.json["model"].null() && cfg.json["model"]["type"].str() == "BPE" && !cfg.json["model"]["dropout"].null()) c.exclude("random merges");
  std::string d = dump(cfg.json);
  std::vector<Op> before, after;
  for (int n = c.s.range(0, 2); n > 0; n--) before.push_back(gen_op(c.s, cfg, true));
  Op op = gen_op(c.s, cfg, true);
  for (int n = c.s.range(1, 3); n > 0; n--) after.push_back(gen_op(c.s, cfg, false));
  std::string calls;
  for (auto& x : before) calls += "; " + x.str();
  // the tokenizer that never meets a failure
  sut::Tokenizer twin(d);
  for (auto& x : before) x.tell(twin);
  faults::arm(0, false);
  std::string want = op.tell(twin);
  long total = faults::disarm();
  std::vector<std::string> wanted;
  for (auto& x : after) wanted.push_back(x.tell(twin));
  int tries = c.s.range(1, 5);
  for (int i = 0; i < tries && total > 0; i++) {
    long at = 1 + (c.s.coin() ? c.s.draw(std::min<long>(total, 30000)) : total - 1 - c.s.draw(std::min<long>(total, 40)));
    bool more = c.s.chance(1, 3);
    c.describe(d + calls + "; " + op.str() + " with allocation " + std::to_string(at) + " of " + std::to_string(total) +
               (more ? " and all later ones" : "") + " failing");
    sut::Tokenizer k(d);
    for (auto& x : before) x.tell(k);
    std::string got;
    End end = under_fault(at, more, [&] { got = op.run(k); });
    c.nontrivial |= end == NO_MEMORY;
    c.label(end == NO_MEMORY ? "thrown" : "returned");
    if (end == RETURNED) c.check(got == want, "returns " + got + " instead of " + want);
    // the same call again, in peace
    got = op.tell(k);
    c.check(got == want, "afterwards it gives " + got + " instead of " + want);
    for (size_t j = 0; j < after.size(); j++) {
      got = after[j].tell(k);
      c.check(got == wanted[j], "later, " + after[j].str() + " gives " + got + " instead of " + wanted[j]);
    }
  }
}
CHECK_CASE(C30, left_behind, 1) {
  if (!faults::available()) c.exclude("not in this build");
  TokOpts to;
  Config cfg = gen_config(c.s, to);
  if (!cfg.json["model"].null() && cfg.json["model"]["type"].str() == "BPE" && !cfg.json["model"]["dropout"].null()) c.exclude("random merges");
  std::string d = dump(cfg.json);
  Op op = gen_op(c.s, cfg, true);
  bool build = c.s.chance(1, 3);
  faults::arm(0, false);
  {
    sut::Tokenizer k(d);
    if (!build) {
      faults::arm(0, false);
      op.tell(k);
    }
  }
  long total = faults::disarm();
  if (total == 0) return;
  long at = 1 + (c.s.coin() ? c.s.draw(std::min<long>(total, 30000)) : total - 1 - c.s.draw(std::min<long>(total, 40)));
  bool more = c.s.chance(1, 3);
  c.describe((build ? "build " + d : d + "; " + op.str()) + " with allocation " + std::to_string(at) + " of " + std::to_string(total) +
             (more ? " and all later ones" : "") + " failing");
  bool thrown = false;
  auto life = [&] {
    if (build) {
      thrown |= under_fault(at, more, [&] { sut::Tokenizer k(d); }) == NO_MEMORY;
      return;
    }
    sut::Tokenizer k(d);
    thrown |= under_fault(at, more, [&] { op.run(k); }) == NO_MEMORY;
  };
  life();
  life();
  long long least = 1, was = __sanitizer_get_current_allocated_bytes();
  for (int i = 0; i < 4; i++) {
    life();
    long long now = __sanitizer_get_current_allocated_bytes();
    least = i == 0 ? now - was : std::min(least, now - was);
    was = now;
  }
  c.label(build ? "building" : "calling");
  c.nontrivial = thrown;
  c.check(least <= 0, std::to_string(least) + " bytes more are in use after every time");
}
