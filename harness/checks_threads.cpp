// C26: several threads, each with tokenizers of its own, under the thread
// sanitizer (this driver is built with it for this property).
#include <sched.h>

#include <algorithm>
#include <atomic>
#include <stdexcept>
#include <thread>

#include "gen.h"

PROPERTY(C26, 6000,
         "2-4 threads started together, each constructing tokenizers or components of its own (the "
         "same configuration, variants of one, or unrelated ones) and running 1-8 calls of "
         "encode, decode, add_tokens or the components' own functions on texts they share, with "
         "random pauses; the results compared with the same calls made one after another, and "
         "every access watched by the thread sanitizer. Non-trivial: at least two threads "
         "tokenize a text of two or more tokens")

struct Call {
  int kind = 0;  // 0 encode, 1 decode the last ids, 2 add, 3 construct anew
  U text;
  bool flag = true;
  std::vector<ATok> toks;
  int pause = 0;
};
struct Script {
  std::string config;
  std::vector<Call> calls;
};
static std::vector<std::string> play(const Script& s, bool* several) {
  std::vector<std::string> out;
  try {
    std::unique_ptr<sut::Tokenizer> k(new sut::Tokenizer(s.config));
    std::vector<int> ids;
    for (auto& o : s.calls) {
      for (int i = 0; i < o.pause; i++) sched_yield();
      try {
        if (o.kind == 0) {
          Enc e = k->encode(o.text, o.flag);
          ids = e.ids;
          if (ids.size() > 1) *several = true;
          out.push_back(show(e));
        } else if (o.kind == 1) {
          out.push_back(k->decode(ids, o.flag));
        } else if (o.kind == 2) {
          out.push_back(std::to_string(o.flag ? k->add_special_tokens(o.toks) : k->add_tokens(o.toks)));
        } else {
          k.reset(new sut::Tokenizer(s.config));
        }
      } catch (const std::invalid_argument& e) {
        out.push_back(std::string("invalid: ") + e.what());  // no room for the stride
      }
    }
  } catch (const std::exception& e) {
    out.push_back(std::string("exception: ") + e.what());
  }
  return out;
}
// all at once; the results of each
static std::vector<std::vector<std::string>> together(int n, const std::function<std::vector<std::string>(int)>& f) {
  std::vector<std::vector<std::string>> r(n);
  std::atomic<int> waiting{n};
  std::vector<std::thread> ts;
  for (int i = 0; i < n; i++)
    ts.emplace_back([&, i] {
      // relaxed: the start must not order what the threads do
      waiting.fetch_sub(1, std::memory_order_relaxed);
      while (waiting.load(std::memory_order_relaxed) > 0) sched_yield();
      r[i] = f(i);
    });
  for (auto& t : ts) t.join();
  return r;
}
CHECK_CASE(C26, tokenizers, 3) {
  int n = c.s.range(2, 4);
  std::vector<Config> cfgs(1, gen_config(c.s));
  if (c.s.coin()) cfgs.push_back(gen_config(c.s));
  std::vector<U> pool;
  for (auto& cfg : cfgs)
    for (int k = c.s.range(1, 2); k > 0; k--) pool.push_back(gen_text_for(c.s, cfg, 20));
  std::vector<Script> ss(n);
  std::string d;
  for (auto& s : ss) {
    const Config& cfg = c.s.pick(cfgs);
    s.config = dump(cfg.json);
    d += s.config + ":";
    for (int k = c.s.range(1, 8); k > 0; k--) {
      Call o;
      o.kind = c.s.weighted({8, 3, 1, 1});
      o.flag = !c.s.chance(1, 3);
      if (c.s.chance(1, 3)) o.pause = c.s.range(1, 40);
      if (o.kind == 0) o.text = c.s.pick(pool);
      if (o.kind == 2) o.toks = gen_added(c.s, cfg.hints, AddedOpts());
      d += o.kind == 0 ? " encode " + show(o.text) : o.kind == 1 ? " decode" : o.kind == 2 ? " add " + std::to_string(o.toks.size()) : " construct";
      s.calls.push_back(o);
    }
    d += "; ";
  }
  c.describe(d);
  std::vector<char> several(n, 0);
  auto got = together(n, [&](int i) {
    bool many = false;
    auto r = play(ss[i], &many);
    several[i] = many;
    return r;
  });
  for (int i = 0; i < n; i++) {
    bool many = false;
    auto want = play(ss[i], &many);
    for (size_t k = 0; k < std::max(want.size(), got[i].size()); k++)
      c.check(k < want.size() && k < got[i].size() && want[k] == got[i][k],
              "thread " + std::to_string(i) + ", result " + std::to_string(k) + ": " + (k < got[i].size() ? got[i][k] : "none") +
                  ", alone " + (k < want.size() ? want[k] : "none"));
  }
  c.nontrivial = std::count(several.begin(), several.end(), 1) > 1;
}
// every kind of component
CHECK_CASE(C26, components, 2) {
  int n = c.s.range(2, 4), kind = c.s.draw(6);
  U t = gen_text(c.s, TextOpts());
  if (t.size() > 60) t.resize(60);
  Vocab v;
  std::vector<J> specs;
  for (int i = 0; i < n; i++) {
    if (i > 0 && c.s.chance(2, 3)) {
      specs.push_back(specs[0]);
    } else {
      BpeOpts bo;
      specs.push_back(kind == 0 ? gen_normalizer(c.s, 2) : kind == 1 ? gen_pre_tokenizer(c.s, 2) : kind == 2 ? (c.s.coin() ? gen_wordpiece(c.s, v) : gen_bpe(c.s, v, bo))
                      : kind == 3 ? gen_post(c.s, 2, nullptr) : kind == 4 ? gen_decoder(c.s, 2) : gen_truncation(c.s));
    }
  }
  Enc e = gen_encoding(c.s, 12, 1);
  std::vector<std::string> toks = e.tokens;
  toks.push_back("##a");
  toks.push_back("<0x41>");
  std::vector<ATok> added = gen_added(c.s, {}, AddedOpts());
  J pad = gen_padding(c.s);
  std::string d = "text " + show(t) + ", tokens " + show(toks);
  for (auto& s : specs) d += "; " + dump(s);
  c.describe(d);
  c.nontrivial = t.size() > 1;
  static const char* names[] = {"normalizers", "pre-tokenizers", "models", "post-processors", "decoders", "truncation, padding, added tokens, conversions"};
  c.label(names[kind]);
  auto one = [&](int i) {
    std::string spec = dump(specs[i]);
    std::vector<std::string> r;
    try {
      for (int round = 0; round < 2; round++) {
        if (kind == 0) r.push_back(show(sut::Normalizer(spec).normalize_pts(t).pieces()));
        if (kind == 1) r.push_back(show(sut::PreTokenizer(spec).apply(sut::PTS(t)).pieces()));
        if (kind == 2) r.push_back(show(sut::Model(spec).tokenize(sut::PTS(t)).pieces()));
        if (kind == 3) r.push_back(show(sut::Post(spec).process(e, true)));
        if (kind == 4) r.push_back(show(sut::Decoder(spec).decode(toks)));
        if (kind == 5) {
          r.push_back(show(sut::Pad(dump(pad)).apply(sut::Trunc(spec).apply(e))));
          sut::AddedVocab a;
          a.add(added, nullptr, nullptr, false);
          r.push_back(show(a.extract(nullptr, t).pieces()));
          r.push_back(show(sut::from_utf8(sut::to_utf8(t))));
          r.push_back(std::to_string(sut::byte_alphabet().size()));
        }
      }
    } catch (const std::invalid_argument& x) {
      r.push_back(std::string("invalid: ") + x.what());
    }
    return r;
  };
  auto got = together(n, one);
  for (int i = 0; i < n; i++) c.check(got[i] == one(i), "thread " + std::to_string(i) + " gives " + show(got[i]) + ", alone " + show(one(i)));
}
