// C11, C12: added tokens.
#include <algorithm>

#include "gen.h"

static std::string show_added(const std::vector<ATok>& t) {
  std::string r;
  for (auto& x : t) r += (r.empty() ? "" : " ") + dump(ref::to_json(x));
  return "[" + r + "]";
}
static void drop_empty(std::vector<Piece>& p) {
  p.erase(std::remove_if(p.begin(), p.end(), [](const Piece& x) { return x.text.empty() && x.toks.empty(); }), p.end());
}
// contents, halves of contents, neighbours that make or break a word boundary
static U gen_around(Src& s, const std::vector<ATok>& toks) {
  TextOpts o;
  o.hint_weight = 14;
  for (auto& t : toks) {
    U w = utf8_decode(t.content);
    if (w.empty()) continue;
    o.hints.push_back(w);
    o.hints.push_back(w);
    if (w.size() > 1) {
      o.hints.push_back(w.substr(0, w.size() - 1));
      o.hints.push_back(w.substr(1));
    }
    o.hints.push_back(U(U" ") + w);
    o.hints.push_back(w + U(U"  "));
    o.hints.push_back(U(U"x") + w);
    o.hints.push_back(w + w.substr(0, 1));
    U up;
    for (char32_t ch : w) up += ch >= 'a' && ch <= 'z' ? ch - 32 : ch;
    o.hints.push_back(up);
  }
  o.hints.push_back(U"_");
  return gen_text(s, o);
}

PROPERTY(C11, 60000,
         "sets of up to 8 added tokens (overlapping, prefixes of each other, non-ASCII, with "
         "every flag combination, special or not, normalized or not) and text made of their "
         "contents, halves of them, neighbours and other characters, under any normalizer or "
         "none; the cut text compared with leftmost-longest search over characters; and encode "
         "compared with the segments encoded on their own. Non-trivial: at least one "
         "occurrence becomes a token")
CHECK_CASE(C11, extract, 5) {
  J norm;
  if (c.s.chance(2, 3)) norm = gen_normalizer(c.s, 1);
  AddedOpts ao;
  ao.max = 8;
  std::vector<ATok> toks = gen_added(c.s, {}, ao);
  Vocab v;
  bool with_model = c.s.coin();
  J model;
  if (with_model) {
    model = gen_wordpiece(c.s, v);
    for (auto& t : v.tokens)
      if (c.s.chance(1, 20)) {
        ATok a;
        a.content = t;
        a.normalized = c.s.coin();
        bool dup = false;
        for (auto& x : toks) dup = dup || x.content == t;
        if (!dup) toks.push_back(a);
      }
  }
  U t = gen_around(c.s, toks);
  c.describe((norm.null() ? std::string("no normalizer") : dump(norm)) + " added " + show_added(toks) + " on " + show(t));
  std::unique_ptr<ref::Model> rm;
  std::unique_ptr<sut::Model> sm;
  if (with_model) {
    rm.reset(new ref::Model(model));
    sm.reset(new sut::Model(dump(model)));
  }
  std::unique_ptr<sut::Normalizer> sn;
  if (!norm.null()) sn.reset(new sut::Normalizer(dump(norm)));
  ref::Added ra;
  sut::AddedVocab sa;
  ra.add(toks, rm.get());
  sa.add(toks, sm.get(), sn.get(), false);
  bool ambiguous = false;
  auto want = ref::pieces(ra.extract(norm, t, &ambiguous));
  if (ambiguous) c.exclude("two added tokens with one normalized form");
  auto got = sa.extract(sn.get(), t).pieces();
  drop_empty(want);
  drop_empty(got);
  int hits = 0;
  for (auto& p : want) hits += !p.toks.empty();
  c.nontrivial = hits > 0;
  c.label("hits " + std::to_string(std::min(hits, 5)));
  c.check(got == want, "expected " + show(want) + " but got " + show(got));
}
// thousands of tokens, contents of hundreds of characters
CHECK_RARE(C11, large, 200) {
  J norm;
  if (c.s.coin()) norm = gen_normalizer(c.s, 1);
  AddedOpts ao;
  ao.max = 8;
  std::vector<ATok> toks = gen_added(c.s, {}, ao);
  auto flags = [&](ATok& a) {
    a.single_word = c.s.chance(1, 8);
    a.lstrip = c.s.chance(1, 8);
    a.rstrip = c.s.chance(1, 8);
    a.normalized = c.s.chance(1, 4);
    a.special = c.s.chance(1, 4);
  };
  std::set<std::string> have;
  for (auto& t : toks) have.insert(t.content);
  std::vector<ATok> hints = toks;
  U unit = gen_word(c.s, 4);
  for (int n = c.s.range(0, 3); n > 0; n--) {  // long ones, one inside another
    ATok a;
    U w;
    int len = c.s.coin() ? c.s.range(20, 300) : big_size(c.s, 1100);
    while ((int)w.size() < len) w += unit;
    w.resize(len);
    if (c.s.coin()) w[c.s.draw(len)] = U'<';
    a.content = utf8(w);
    flags(a);
    if (have.insert(a.content).second && !is_ws(w[0]) && !is_ws(w.back())) {
      toks.push_back(a);
      hints.push_back(a);
    }
  }
  int many = c.s.coin() ? 0 : c.s.coin() ? c.s.range(60, 300) : c.s.range(300, 3000);
  for (int i = 0; i < many; i++) {
    ATok a;
    a.content = "<extra_id_" + std::to_string(i) + (i % 9 ? ">" : "");
    if (i % 16 == 0) flags(a);
    else a.normalized = false;
    if (have.insert(a.content).second) toks.push_back(a);
  }
  for (int k = 0; many && k < 12; k++) hints.push_back(toks[toks.size() - 1 - c.s.draw(many)]);
  TextOpts to;
  to.hint_weight = 14;
  to.dense_max = 1100;
  for (auto& h : hints) {
    U w = utf8_decode(h.content);
    if (w.empty()) continue;
    to.hints.push_back(w);
    if (c.s.chance(1, 3)) to.hints.push_back(w.substr(0, w.size() - 1));
    if (c.s.chance(1, 3)) to.hints.push_back(U(U" ") + w + U(U" "));
  }
  U t = gen_big_text(c.s, to, 2100);
  if (!to.hints.empty() && c.s.chance(1, 3)) {  // white space wide and far
    U gap;
    char32_t ws = c.s.coin() ? U' ' : c.s.pick(std::vector<char32_t>{9, 10, 0xa0, 0x2003, 0x3000});
    int len = c.s.coin() ? c.s.range(120, 300) : big_size(c.s, 4200);
    gap.resize(len, ws);
    if (c.s.coin()) gap[c.s.draw(len)] = U'\n';
    t.insert(c.s.draw(t.size() + 1), (c.s.coin() ? c.s.pick(to.hints) : U()) + gap + (c.s.chance(3, 4) ? c.s.pick(to.hints) : U()));
  }
  c.describe((norm.null() ? std::string("no normalizer") : dump(norm)) + " added " + show_added(hints) + " and others (" + std::to_string(toks.size()) + " in all) on " + show(t));
  std::unique_ptr<sut::Normalizer> sn;
  if (!norm.null()) sn.reset(new sut::Normalizer(dump(norm)));
  ref::Added ra;
  sut::AddedVocab sa;
  ra.add(toks, nullptr);
  sa.add(toks, nullptr, sn.get(), false);
  bool ambiguous = false;
  auto want = ref::pieces(ra.extract(norm, t, &ambiguous));
  if (ambiguous) c.exclude("two added tokens with one normalized form");
  auto got = sa.extract(sn.get(), t).pieces();
  drop_empty(want);
  drop_empty(got);
  for (auto& p : want) c.nontrivial |= !p.toks.empty();
  if (got == want) return;
  size_t i = 0;
  while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
  auto at = [&](const std::vector<Piece>& p) { return i < p.size() ? show(std::vector<Piece>{p[i]}) : std::string("nothing"); };
  c.fail("piece " + std::to_string(i) + ": expected " + at(want) + " but got " + at(got));
}
// a whole tokenizer: every occurrence is one token and the text in between is
// what a tokenizer without added tokens makes of it on its own
CHECK_CASE(C11, segments, 2) {
  TokOpts o;
  o.allow_added = o.allow_trunc = o.allow_pad = o.allow_post = false;
  o.allow_null_model = false;
  Config cfg = gen_config(c.s, o);
  std::vector<ATok> toks;
  for (auto t : gen_added(c.s, cfg.hints, AddedOpts())) {
    t.normalized = t.lstrip = t.rstrip = t.single_word = false;
    toks.push_back(t);
  }
  J with = cfg.json;
  J arr = J::arr();
  for (auto& t : toks) arr.a.push_back(ref::to_json(t));
  with.set("added_tokens", arr);
  sut::Tokenizer a(dump(with)), b(dump(cfg.json));
  ref::Tokenizer m(with);
  U t = gen_around(c.s, toks);
  c.describe(dump(with) + " on " + show(t));
  std::vector<int> want;
  std::vector<std::string> want_toks;
  U rest;
  auto flush = [&] {
    if (rest.empty()) return;
    Enc e = b.encode(rest);
    want.insert(want.end(), e.ids.begin(), e.ids.end());
    want_toks.insert(want_toks.end(), e.tokens.begin(), e.tokens.end());
    rest.clear();
  };
  for (size_t i = 0; i < t.size();) {
    const ATok* best = nullptr;
    size_t len = 0;
    for (auto& x : toks) {
      U w = utf8_decode(x.content);
      if (w.size() > len && t.compare(i, w.size(), w) == 0) {
        best = &x;
        len = w.size();
      }
    }
    if (!best) {
      rest += t[i++];
      continue;
    }
    flush();
    c.nontrivial = true;
    want.push_back(m.added.ids.at(best->content));
    want_toks.push_back(best->content);
    i += len;
  }
  flush();
  Enc got = a.encode(t);
  c.check(got.tokens == want_toks, "expected tokens " + show(want_toks) + " but got " + show(got.tokens));
  c.check(got.ids == want, "the ids differ from those of the segments: " + show(got));
}

PROPERTY(C12, 24000,
         "histories of up to 12 operations on a tokenizer (any model or none, added tokens in "
         "its configuration or not): add_tokens and add_special_tokens with fresh, repeated, "
         "empty and in-vocabulary contents, encode and decode in between; every result compared "
         "with a model of the id assignment. Non-trivial: two additions with an encode after")
CHECK_CASE(C12, history, 3) {
  TokOpts o;
  o.allow_trunc = o.allow_pad = false;
  Config cfg = gen_config(c.s, o);
  ref::Tokenizer m(cfg.json);
  sut::Tokenizer k(dump(cfg.json));
  std::string desc = dump(cfg.json);
  c.describe(desc);
  std::vector<ATok> known;
  if (!cfg.json["added_tokens"].null())
    for (auto& j : cfg.json["added_tokens"].a) known.push_back(ref::atok_from(j));
  int adds = 0;
  U last;
  for (int op = c.s.range(2, 12); op > 0; op--) {
    switch (c.s.weighted({4, 4, 3})) {
      case 0: {  // add
        bool special = c.s.chance(1, 3);
        std::vector<U> hints = cfg.hints;
        if (m.model)
          for (int i = 0; i < 3; i++) {
            auto it = m.model->rev.find(c.s.draw(m.model->rev.size() + 1));
            if (it != m.model->rev.end()) hints.push_back(utf8_decode(it->second));
          }
        if (!last.empty() && c.s.coin()) {  // something the last text contains
          hints.clear();
          for (int i = 0; i < 4; i++) hints.push_back(last.substr(c.s.draw(last.size()), c.s.range(1, 4)));
        }
        AddedOpts ao;
        ao.specials = !special;
        ao.must_special = special;
        auto t = gen_added(c.s, hints, ao);
        for (auto& x : t)  // a content keeps its flags
          for (auto& y : known)
            if (x.content == y.content) x = y;
        if (special)
          for (auto& x : t) x.special = true;
        if (!known.empty() && c.s.chance(1, 3)) {
          ATok y = c.s.pick(known);
          y.special = y.special || special;
          bool dup = false;
          for (auto& x : t) dup = dup || x.content == y.content;
          if (!dup) t.insert(t.begin() + c.s.draw(t.size() + 1), y);
        }
        if (c.s.chance(1, 6)) t.insert(t.begin() + c.s.draw(t.size() + 1), ATok());
        bool fresh = true;
        int count = 0;
        for (auto& x : t) {
          if (x.content.empty()) continue;
          count++;
          if (m.added.ids.count(x.content) || (m.model && m.model->vocab.count(x.content))) fresh = false;
        }
        desc += std::string(" | ") + (special ? "add_special_tokens " : "add_tokens ") + show_added(t);
        c.describe(desc);
        for (auto& x : t) {
          bool have = false;
          for (auto& y : known)
            if (y.content == x.content) {
              have = true;
              y.special = y.special || x.special;
            }
          if (!have && !x.content.empty()) known.push_back(x);
        }
        m.add_tokens(t);
        int got = special ? k.add_special_tokens(t) : k.add_tokens(t);
        if (fresh) c.check(got == count, "returned " + std::to_string(got) + " for " + std::to_string(count) + " new tokens");
        adds++;
        break;
      }
      case 1: {  // encode
        U t = c.s.chance(1, 3) ? last : gen_around(c.s, known);
        if (c.s.chance(1, 12)) t += gen_around(c.s, known) + t;
        last = t;
        bool sp = c.s.coin();
        desc += std::string(" | encode ") + show(t) + (sp ? "" : " without special tokens");
        c.describe(desc);
        ref::Tokenizer::Flags f;
        Enc want = m.encode(t, sp, &f);
        if (f.ambiguous) {
          c.label("ambiguous encode skipped");
          break;
        }
        Enc got = k.encode(t, sp);
        if (adds >= 2) c.nontrivial = true;
        c.check(got.ids == want.ids && got.tokens == want.tokens, diff(want, got));
        break;
      }
      default: {  // decode
        std::vector<int> ids;
        for (auto& p : m.added.by_id)
          if (c.s.coin()) ids.push_back(p.first);
        int n = m.model ? m.model->rev.size() : 0;
        for (int i = c.s.range(0, 4); i > 0; i--) ids.push_back(c.s.draw(n + 12));
        bool skip = c.s.coin();
        desc += skip ? " | decode skipping special" : " | decode";
        for (int id : ids) desc += " " + std::to_string(id);
        c.describe(desc);
        std::string want = m.decode(ids, skip), got = k.decode(ids, skip);
        c.check(got == want, "expected " + quote(want) + " but got " + quote(got));
      }
    }
  }
}
// ids only: stated directly, whatever the rest of the pipeline
CHECK_CASE(C12, ids, 2) {
  Vocab v;
  J model;
  if (c.s.chance(4, 5)) model = c.s.coin() ? gen_wordpiece(c.s, v) : gen_bpe(c.s, v, BpeOpts());
  J cfg = J::obj({{"version", "1.0"}, {"truncation", J()}, {"padding", J()}, {"added_tokens", J()},
                  {"normalizer", J()}, {"pre_tokenizer", J()}, {"post_processor", J()}, {"decoder", J()}, {"model", model}});
  std::vector<std::string> order;
  std::set<std::string> special;
  auto batch = [&](bool must_special) {
    std::vector<ATok> t;
    for (int n = c.s.range(0, 6); n > 0; n--) {
      ATok a;
      switch (c.s.weighted({5, 2, 3, 1})) {
        case 0: a.content = "<t" + std::to_string(c.s.draw(12)) + ">"; break;
        case 1: if (!v.tokens.empty()) a.content = c.s.pick(v.tokens); break;
        case 2: if (!order.empty()) a.content = c.s.pick(order); break;
        default: break;
      }
      a.id = c.s.range(0, 500);
      a.normalized = false;
      a.special = must_special || (!must_special && c.s.chance(1, 5));
      t.push_back(a);
    }
    return t;
  };
  auto note = [&](const std::vector<ATok>& t) {
    for (auto& a : t) {
      if (a.content.empty()) continue;
      if (std::find(order.begin(), order.end(), a.content) == order.end()) order.push_back(a.content);
      if (a.special) special.insert(a.content);
    }
  };
  if (c.s.coin()) {
    auto t = batch(false);
    J arr = J::arr();
    for (auto& a : t) arr.a.push_back(ref::to_json(a));
    cfg.set("added_tokens", arr);
    note(t);
  }
  sut::Tokenizer k(dump(cfg));
  std::string desc = dump(cfg);
  std::map<std::string, int> ids;
  for (int round = c.s.range(1, 5); round > 0; round--) {
    bool sp = c.s.chance(1, 3);
    auto t = batch(sp);
    desc += (sp ? " | add_special_tokens " : " | add_tokens ") + show_added(t);
    c.describe(desc);
    note(t);
    sp ? k.add_special_tokens(t) : k.add_tokens(t);
    std::set<int> used;
    int above = (int)v.tokens.size() - 1;
    for (auto& x : order) {
      Enc e = k.encode(utf8_decode(x), false);
      c.check(e.ids.size() == 1, quote(x) + " is not one token: " + show(e));
      int id = e.ids[0];
      auto in_vocab = std::find(v.tokens.begin(), v.tokens.end(), x);
      if (in_vocab != v.tokens.end()) {
        c.check(id == in_vocab - v.tokens.begin(), quote(x) + " does not keep the model's id but has " + std::to_string(id));
      } else {
        c.check(id > above, quote(x) + " has id " + std::to_string(id) + ", not above " + std::to_string(above));
        above = id;
      }
      c.check(used.insert(id).second, "id " + std::to_string(id) + " is shared by " + quote(x));
      if (ids.count(x)) c.check(ids[x] == id, quote(x) + " changed its id");
      ids[x] = id;
      c.check(k.decode({id}, false) == x, "id of " + quote(x) + " decodes to " + quote(k.decode({id}, false)));
      c.check(k.decode({id}, true) == (special.count(x) ? "" : x), "skip_special_tokens is wrong for " + quote(x));
    }
    if (round == 1 && ids.size() >= 3) c.nontrivial = true;
  }
}
// thousands of additions
CHECK_RARE(C12, large, 40) {
  Vocab v;
  J model;
  if (c.s.chance(4, 5)) model = c.s.coin() ? gen_wordpiece(c.s, v) : gen_bpe(c.s, v, BpeOpts());
  int base = v.tokens.size();
  if (!model.null() && c.s.coin()) {
    J vocab = model["vocab"];
    for (int n = c.s.coin() ? 70000 : c.s.range(200, 3000); base < n; base++) vocab.o.push_back({"v" + std::to_string(base), J(base)});
    model.set("vocab", vocab);
  }
  J cfg = J::obj({{"version", "1.0"}, {"truncation", J()}, {"padding", J()}, {"added_tokens", c.s.coin() ? J() : J::arr()},
                  {"normalizer", J()}, {"pre_tokenizer", J()}, {"post_processor", J()}, {"decoder", J()}, {"model", model}});
  sut::Tokenizer k(dump(cfg));
  std::map<std::string, int> ids;
  std::set<std::string> special;
  std::vector<std::string> order;
  int next_id = base, total = c.s.coin() ? c.s.range(100, 600) : c.s.range(600, 4000), batches = c.s.range(1, 4);
  c.describe(std::to_string(total) + " tokens in " + std::to_string(batches) + " batches added to a vocabulary of " + std::to_string(base));
  Lcg next(c.s.draw(1 << 16));
  for (int b = 0; b < batches; b++) {
    bool sp = next(2);
    std::vector<ATok> t;
    for (int i = total * b / batches; i < total * (b + 1) / batches; i++) {
      ATok a;
      a.content = "<t" + std::to_string(i) + ">";
      switch (next(8)) {
        case 0: if (!order.empty()) a.content = order[next(order.size())]; break;
        case 1: if (base) a.content = base > (int)v.tokens.size() && next(2) ? "v" + std::to_string(v.tokens.size() + next(base - v.tokens.size())) : v.tokens[next(v.tokens.size())]; break;
      }
      a.id = next(9);
      a.normalized = false;
      a.special = sp || special.count(a.content) || next(5) == 0;
      bool had = ids.count(a.content);
      if (had && a.special && !special.count(a.content)) a.special = sp;  // keeps its flags
      if (!had) {
        auto it = std::find(v.tokens.begin(), v.tokens.end(), a.content);
        ids[a.content] = it != v.tokens.end() ? it - v.tokens.begin() : a.content[0] == 'v' && a.content.size() > 1 && base > (int)v.tokens.size() ? atoi(a.content.c_str() + 1) : next_id++;
        order.push_back(a.content);
      }
      if (a.special) special.insert(a.content);
      t.push_back(a);
    }
    sp ? k.add_special_tokens(t) : k.add_tokens(t);
    for (int i = 0; i < 60; i++) {
      const std::string& x = order[i < 5 ? order.size() - 1 - i % order.size() : next(order.size())];
      if (x.empty()) continue;
      int id = ids[x];
      Enc e = k.encode(utf8_decode(x), false);
      c.check(e.ids == std::vector<int>{id}, quote(x) + " should have id " + std::to_string(id) + " but is " + show(e));
      c.check(k.decode({id}, false) == x, "id " + std::to_string(id) + " decodes to " + quote(k.decode({id}, false)) + ", not " + quote(x));
      c.check(k.decode({id}, true) == (special.count(x) ? "" : x), "skip_special_tokens is wrong for " + quote(x));
    }
  }
  c.nontrivial = total > 250;
}
