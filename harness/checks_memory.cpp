// C28: what the library takes it gives back. The allocator of the address
// sanitizer counts the bytes in use; the same calls made again and again must
// not leave more of them behind each time.
#include <sanitizer/allocator_interface.h>

#include <exception>

#include "gen.h"

// Calls f often enough to tell what is left behind by every call from what is
// set up once (tables, caches of ICU, pools that grow now and then).
template <class F>
static void steady(Case& c, const std::string& what, F f) {
  const int rounds = 4;
  long long in_use[rounds + 1];
  f();
  f();
  in_use[0] = __sanitizer_get_current_allocated_bytes();
  for (int i = 1; i <= rounds; i++) {
    f();
    in_use[i] = __sanitizer_get_current_allocated_bytes();
  }
  long long least = in_use[1] - in_use[0];
  for (int i = 2; i <= rounds; i++) least = std::min(least, in_use[i] - in_use[i - 1]);
  c.check(least <= 0, what + " takes " + std::to_string(least) + " bytes more every time it is done");
}
namespace {
// results go away before the next count
struct Told {
  size_t ids = 0, bytes = 0;
  int thrown = 0, accepted = 0;
};
struct Call {
  int op;  // 0 encode, 1 decode, 2 add tokens, 3 add special tokens, 4 move
  U text;
  bool flag = false;
  std::vector<int> ids;
  std::vector<ATok> toks;
  std::string str() const {
    std::string r;
    if (op == 0) return "encode " + show(text) + (flag ? "" : " without special tokens");
    if (op == 1) {
      for (int i : ids) r += " " + std::to_string(i);
      return "decode" + r + (flag ? "" : " with special tokens");
    }
    if (op == 4) return "move";
    for (auto& t : toks) r += " " + dump(ref::to_json(t));
    return (op == 2 ? "add" : "add special") + r;
  }
  void run(sut::Tokenizer& k, Told& told) const {
    try {
      if (op == 0) told.ids += k.encode(text, flag).ids.size();
      if (op == 1) told.bytes += k.decode(ids, flag).size();
      if (op == 2) k.add_tokens(toks);
      if (op == 3) k.add_special_tokens(toks);
      if (op == 4) k.move();
    } catch (const std::exception&) {
      told.thrown++;
    }
  }
};
}  // namespace
static std::vector<Call> gen_calls(Src& s, const Config& cfg, bool change) {
  std::vector<Call> r;
  std::vector<U> hints = cfg.hints;
  for (int n = s.range(1, change ? 5 : 3); n > 0; n--) {
    Call k;
    k.op = s.weighted({5, 2, change ? 1 : 0, change ? 1 : 0, change ? 1 : 0});
    k.flag = s.coin();
    if (k.op == 0) k.text = gen_text_for(s, cfg, 25);
    if (k.op == 1)
      for (int m = s.range(0, 12); m > 0; m--) k.ids.push_back(s.chance(1, 6) ? -1 : s.range(0, 60));
    if (k.op == 2 || k.op == 3) k.toks = gen_added(s, hints, AddedOpts());
    r.push_back(k);
  }
  return r;
}
static std::string str(const std::vector<Call>& calls) {
  std::string r;
  for (auto& k : calls) r += "; " + k.str();
  return r;
}

PROPERTY(C28, 24000,
         "tokenizers built, used (encode, decode, tokens added, moved) and let go; the same calls "
         "made again on a living tokenizer; configurations that are broken or odd; every component "
         "alone. Each is done six times over while the sanitizer's allocator counts the bytes in "
         "use; if every one of the last four leaves more bytes in use than it found, something "
         "is never given back. Non-trivial: ids came out, or a configuration was rejected")
CHECK_CASE(C28, lives, 5) {
  Config cfg = gen_config(c.s);
  std::string d = dump(cfg.json);
  auto calls = gen_calls(c.s, cfg, true);
  c.describe(d + str(calls));
  Told told;
  steady(c, "a tokenizer's life", [&] {
    sut::Tokenizer k(d);
    for (auto& x : calls) x.run(k, told);
  });
  c.nontrivial = told.ids > 6;
}
CHECK_CASE(C28, repeated_calls, 5) {
  TokOpts to;
  Config cfg = gen_config(c.s, to);
  std::string d = dump(cfg.json);
  auto first = gen_calls(c.s, cfg, true), again = gen_calls(c.s, cfg, true);
  c.describe(d + str(first) + "; again and again" + str(again));
  Told told;
  sut::Tokenizer k(d);
  for (auto& x : first) x.run(k, told);
  told = Told();
  // random merges: which words are looked at differs from call to call
  steady(c, "the same calls on one tokenizer", [&] {
    for (auto& x : again) x.run(k, told);
  });
  c.label(told.thrown ? "calls that throw" : "calls that return");
  c.nontrivial = told.ids > 6;
}
CHECK_CASE(C28, rejected, 5) {
  TokOpts to;
  to.affix_bytes = true;
  Config cfg = gen_config(c.s, to);
  std::string d = mutated_config(c.s, cfg.json);
  U t = gen_text_for(c.s, cfg, 10);
  c.describe(d + " on " + show(t));
  Told told;
  steady(c, "building from this configuration", [&] {
    try {
      sut::Tokenizer k(d);
      told.accepted++;
      told.ids += k.encode(t).ids.size();
    } catch (const std::exception&) {
      told.thrown++;
    }
  });
  c.label(told.accepted == 0 ? "rejected" : told.thrown ? "accepted, then thrown" : "accepted");
  c.nontrivial = told.thrown > 0;
}
CHECK_CASE(C28, components, 4) {
  int which = c.s.draw(6);
  U t;
  Told told;
  auto text = [&](const std::vector<U>& hints) {
    TextOpts o;
    o.hints = hints;
    return gen_text(c.s, o);
  };
  auto repeat = [&](const std::string& d, auto make, auto use) {
    c.describe(d);
    steady(c, "the component's life", [&] {
      auto k = make();
      use(*k);
    });
    auto k = make();
    steady(c, "the same call of the component", [&] { use(*k); });
  };
  std::vector<U> hints;
  if (which == 0) {
    J spec = gen_normalizer(c.s, 3);
    config_strings(spec, hints);
    t = text(hints);
    repeat(dump(spec) + " on " + show(t), [&] { return std::make_unique<sut::Normalizer>(dump(spec)); },
           [&](sut::Normalizer& n) { told.ids += n.normalize(t).size(); });
  } else if (which == 1) {
    J spec = gen_pre_tokenizer(c.s, 3, true);
    config_strings(spec, hints);
    t = text(hints);
    repeat(dump(spec) + " on " + show(t), [&] { return std::make_unique<sut::PreTokenizer>(dump(spec)); },
           [&](sut::PreTokenizer& n) { told.ids += n.apply(sut::PTS(t)).pieces().size(); });
  } else if (which == 2) {
    Vocab v;
    BpeOpts bo;
    bo.byte_level = c.s.coin();
    J spec = c.s.chance(1, 3) ? gen_wordpiece(c.s, v) : gen_bpe(c.s, v, bo);
    t = text(v.words);
    repeat(dump(spec) + " on " + show(t), [&] { return std::make_unique<sut::Model>(dump(spec)); },
           [&](sut::Model& n) {
             for (auto& p : n.tokenize(sut::PTS(t)).pieces()) told.ids += p.toks.size();
           });
  } else if (which == 3) {
    J spec = gen_post(c.s, 3, nullptr), trunc = gen_truncation(c.s), pad = gen_padding(c.s);
    Enc e = gen_encoding(c.s, 25, 2, c.s.coin());
    int k = c.s.draw(3);
    J which_spec = k == 0 ? spec : k == 1 ? trunc : pad;
    auto use = [&](auto f) {
      try {
        told.ids += f().ids.size();
      } catch (const std::exception&) {
        told.thrown++;
      }
    };
    std::string d = dump(which_spec) + " on " + show(e);
    if (k == 0) repeat(d, [&] { return std::make_unique<sut::Post>(dump(spec)); },
                       [&](sut::Post& n) { use([&] { return n.process(e, true); }); });
    if (k == 1) repeat(d, [&] { return std::make_unique<sut::Trunc>(dump(trunc)); },
                       [&](sut::Trunc& n) { use([&] { return n.apply(e); }); });
    if (k == 2) repeat(d, [&] { return std::make_unique<sut::Pad>(dump(pad)); },
                       [&](sut::Pad& n) { use([&] { return n.apply(e); }); });
  } else if (which == 4) {
    J spec = gen_decoder(c.s, 3);
    std::vector<std::string> toks;
    static const std::vector<std::string> pool = {"##a", "##", "▁b", " ", "", "<0xC3>", "<0xA9>", "<0xFF>", "<0x41>", "é", "Ġa", "x</w>", "世"};
    for (int n = c.s.size_upto(30); n > 0; n--) toks.push_back(c.s.pick(pool));
    repeat(dump(spec) + " on " + show(toks), [&] { return std::make_unique<sut::Decoder>(dump(spec)); },
           [&](sut::Decoder& n) { told.ids += n.decode(toks).size(); });
  } else {
    J spec = gen_normalizer(c.s, 2);
    bool has = c.s.coin();
    sut::Normalizer n(dump(spec));
    auto toks = gen_added(c.s, {}, AddedOpts());
    std::string d = has ? dump(spec) + " and" : "";
    for (auto& x : toks) {
      d += " " + dump(ref::to_json(x));
      hints.push_back(utf8_decode(x.content));
    }
    t = text(hints);
    bool special = c.s.coin();
    repeat(d + " on " + show(t),
           [&] {
             auto v = std::make_unique<sut::AddedVocab>();
             v->add(toks, nullptr, has ? &n : nullptr, special);
             return v;
           },
           [&](sut::AddedVocab& v) { told.ids += v.extract(has ? &n : nullptr, t).pieces().size(); });
  }
  static const char* const names[] = {"normalizer", "pre-tokenizer", "model", "post-processor, truncation, padding", "decoder", "added tokens"};
  c.label(names[which]);
  c.nontrivial = told.ids > 6;
}
