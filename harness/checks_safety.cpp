// C24: nothing but normal returns, under address and undefined-behaviour
// sanitizers, with limits on time and memory.
#include <algorithm>
#include <stdexcept>

#include "gen.h"

// texts that are all of one awkward sort, and long ones
static U awkward(Src& s, const std::vector<U>& hints) {
  static const std::vector<U> units = {
      U" ", U"\t", U"\n", U"\r", U"\u00a0", U"\u2028", U"\u3000", U"\u0301", U"\u0345", U"\u200d", U"\u200b", U"\ufeff",
      U"\x01", U"\x7f", U"\u0085", U"\u00ad", U"\ue000", U"\ufffd", U"\ufffe", U"\uffff", U"\U0010ffff", U"\U000f0000", U"\U0001f600",
      U"\U0001f468\u200d\U0001f469", U"\u0130", U"\u1e9e", U"ﬁ", U"\ufdfa", U"가", U"\u1100\u1161\u11a8", U"\u0f73", U"\u0344",
      U"世", U"'s", U"'", U".", U"a", U"A", U"1", U"Ġ", U"▁", U"#", U"##", U"\U0001d160", U"\u0915\u094d", U"<0x41>", U"é", U"e\u0301"};
  U t;
  int sorts = s.range(1, 3);
  std::vector<U> mine;
  for (int i = 0; i < sorts; i++) mine.push_back(!hints.empty() && s.coin() ? s.pick(hints) : s.pick(units));
  if (s.chance(1, 8)) mine.push_back(U(1, U'\0'));
  int n = s.weighted({6, 3, 1});
  n = n == 0 ? s.range(0, 8) : n == 1 ? s.range(8, 120) : s.range(120, 1200);
  bool cycle = s.coin();
  for (int i = 0; i < n; i++) t += cycle ? mine[i % mine.size()] : s.pick(mine);
  if (t.size() > 3000) t.resize(3000);
  return t;
}
static U any_text(Src& s, const std::vector<U>& hints) {
  if (s.coin()) return awkward(s, hints);
  TextOpts o;
  o.hints = hints;
  return gen_text(s, o);
}

PROPERTY(C24, 36000,
         "all configurations and every component alone, on texts that are empty, all of one "
         "awkward sort (white space, marks, controls, private use, last planes, expansions), "
         "only added tokens, or up to thousands of characters long; encode, decode of any ids, "
         "add_tokens in between, and each component given any pieces, encodings or token "
         "lists, all under address and undefined-behaviour sanitizers with limits on time and "
         "memory. Non-trivial: something came out of a text of two or more characters")
static void tokenizers(Case& c, bool big) {
  TokOpts to;
  to.affix_bytes = true;
  Config cfg = gen_config(c.s, to);
  if (big) enlarge(c.s, cfg);
  sut::Tokenizer k(dump(cfg.json));
  std::string d = dump(cfg.json);
  const J& trunc = cfg.json["truncation"];
  for (int round = c.s.range(1, 3); round > 0; round--) {
    U t = big ? gen_big_text_for(c.s, cfg, 4200) : any_text(c.s, cfg.hints);
    bool add = c.s.coin();
    c.describe(d + " on " + show(t) + (add ? "" : " without special tokens"));
    Enc e;
    try {
      e = k.encode(t, add);
    } catch (const std::invalid_argument& x) {
      // a stride that leaves no room to advance
      if (trunc.null() || trunc["stride"].num() == 0) c.fail(std::string("exception: ") + x.what());
      c.label("stride leaves no room");
      continue;
    }
    if (t.size() > 1 && !e.ids.empty()) c.nontrivial = true;
    c.label(t.size() > 500 ? "text: long" : t.empty() ? "text: empty" : "text: short");
    std::vector<int> ids = e.ids;
    for (int n = c.s.range(0, 4); n > 0; n--)
      ids.push_back(c.s.chance(1, 4) ? (int)c.s.draw(1u << 31) : c.s.chance(1, 4) ? -c.s.range(0, 100000) : c.s.range(0, 200));
    if (c.s.coin()) c.s.shuffle(ids);
    k.decode(ids, c.s.coin());
    if (c.s.chance(1, 4)) {
      AddedOpts ao;
      auto toks = gen_added(c.s, cfg.hints, ao);
      if (c.s.chance(1, 4)) toks.push_back(ATok());
      d += " plus";
      for (auto& x : toks) {
        d += " " + dump(ref::to_json(x));
        cfg.hints.push_back(utf8_decode(x.content));
      }
      c.describe(d);
      if (c.s.coin()) k.add_tokens(toks);
      else k.add_special_tokens(toks);
    }
  }
}
CHECK_CASE(C24, tokenizers, 6) { tokenizers(c, false); }
CHECK_RARE(C24, tokenizers_large, 120) { tokenizers(c, true); }
CHECK_CASE(C24, normalizers, 3) {
  J spec = gen_normalizer(c.s, 3);
  U t = any_text(c.s, {});
  c.describe(dump(spec) + " on " + show(t));
  sut::Normalizer n(dump(spec));
  U r = n.normalize(t);
  n.normalize_pts(t);
  c.nontrivial = t.size() > 1 && !r.empty();
}
CHECK_CASE(C24, pre_tokenizers, 3) {
  J spec = gen_pre_tokenizer(c.s, 3, true), norm = gen_normalizer(c.s, 2);
  U t = any_text(c.s, {});
  c.describe(dump(norm) + " then " + dump(spec) + " on " + show(t));
  sut::PTS p = c.s.coin() ? sut::Normalizer(dump(norm)).normalize_pts(t) : sut::PTS(t);
  sut::PreTokenizer k(dump(spec));
  for (int n = c.s.range(1, 2); n > 0; n--) p = k.apply(p);
  c.nontrivial = p.pieces().size() > 1;
}
CHECK_CASE(C24, models, 3) {
  Vocab v;
  J spec;
  BpeOpts bo;
  bo.byte_level = c.s.coin();
  bo.dropout = c.s.chance(1, 4);
  bo.affix_bytes = true;
  spec = c.s.chance(1, 3) ? gen_wordpiece(c.s, v) : gen_bpe(c.s, v, bo);
  sut::Model m(dump(spec));
  std::vector<Piece> ps;
  U all;
  for (int n = c.s.range(0, 4); n > 0; n--) {
    U w = any_text(c.s, v.words);
    if (w.size() > 1000) w.resize(1000);
    Piece p;
    p.text = utf8(w);
    p.s = all.size();
    p.e = p.s + w.size();
    if (c.s.chance(1, 10)) p.toks.push_back({c.s.range(0, 9), "t", 0, (int)w.size()});
    all += w;
    ps.push_back(p);
  }
  c.describe(dump(spec) + " on " + show(ps));
  sut::PTS x(all);
  x.set_pieces(ps);
  auto r = m.tokenize(m.tokenize(x)).pieces();
  c.check(r.size() == ps.size(), "pieces changed");
  for (auto& p : r) c.nontrivial |= p.toks.size() > 1;
}
CHECK_CASE(C24, decoders, 3) {
  J spec = gen_decoder(c.s, 3);
  std::vector<std::string> t;
  static const std::vector<std::string> pool = {"##a", "##", "▁", "▁b", " ", "", "<0xC3>", "<0xA9>", "<0xFF>", "<0x41>", "<0x00>", "é", "Ġ", "Ġx", "n't", " ", "😀", "a", "aaaa", "."};
  for (int n = c.s.size_upto(60); n > 0; n--) t.push_back(c.s.chance(3, 4) ? c.s.pick(pool) : utf8(any_text(c.s, {})));
  c.describe(dump(spec) + " on " + show(t));
  auto r = sut::Decoder(dump(spec)).decode(t);
  c.nontrivial = t.size() > 1 && !r.empty();
}
CHECK_CASE(C24, encodings, 3) {
  Enc e = gen_encoding(c.s, 40, 2, c.s.coin());
  J post = gen_post(c.s, 3, nullptr), trunc = gen_truncation(c.s), pad = gen_padding(c.s);
  bool add = c.s.coin();
  c.describe(dump(trunc) + ", " + dump(post) + ", " + dump(pad) + " on " + show(e));
  Enc r = e;
  int order = c.s.draw(6);
  auto step = [&](int k) {
    if (k == 0) r = sut::Trunc(dump(trunc)).apply(r);
    if (k == 1) r = sut::Post(dump(post)).process(r, add);
    if (k == 2) r = sut::Pad(dump(pad)).apply(r);
  };
  static const int orders[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  for (int k : orders[order]) step(k);
  c.nontrivial = e.ids.size() > 1;
}
CHECK_CASE(C24, added_tokens, 3) {
  J norm = gen_normalizer(c.s, 2);
  bool has = c.s.coin();
  sut::Normalizer n(dump(norm));
  sut::AddedVocab v;
  Vocab mv;
  J spec = gen_wordpiece(c.s, mv);
  sut::Model m(dump(spec));
  std::vector<U> hints = mv.words;
  std::string d = has ? dump(norm) + " and" : "";
  AddedOpts ao;
  ao.max = 12;
  for (int rounds = c.s.range(1, 3); rounds > 0; rounds--) {
    auto toks = gen_added(c.s, hints, ao);
    for (auto& t : toks) {
      hints.push_back(utf8_decode(t.content));
      d += " " + dump(ref::to_json(t));
    }
    c.describe(d);
    v.add(toks, c.s.coin() ? &m : nullptr, has ? &n : nullptr, c.s.coin());
    U t = any_text(c.s, hints);
    c.describe(d + " on " + show(t));
    auto p = v.extract(has ? &n : nullptr, t).pieces();
    c.nontrivial |= p.size() > 1;
  }
  for (int id : {-1, 0, 5, 1000000, 2147483647}) v.id_to_token(id);
}
// Texts of a std::wstring that are not Unicode characters, and token contents
// that are not UTF-8: at worst a standard exception, after which the tokenizer
// still works.
static U no_text(Src& s, const std::vector<U>& hints) {
  static const std::vector<char32_t> odd = {0xd800, 0xdbff, 0xdc00, 0xdfff, 0x110000, 0x1fffff, 0x200000, 0x7fffffff,
                                            0x80000000, 0x80000020, 0xffffffff, 0xffffff80, 0xfffffffe, 0x10ffff, 0xfffe, 0, 0x100000061 & 0xffffffff};
  U t = any_text(s, hints);
  if (t.size() > 200) t.resize(200);
  for (int n = s.range(1, 4); n > 0; n--)
    t.insert(t.begin() + s.draw(t.size() + 1), s.chance(1, 4) ? static_cast<char32_t>(s.draw(1ull << 32)) : s.pick(odd));
  return t;
}
static std::string no_utf8(Src& s) {
  static const std::vector<std::string> parts = {"\x80", "\xc3", "\xe4\xb8", "\xf0\x9f\x98", "\xff", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\x80", "\xf8\x88\x80\x80\x80",
                                                 "a", "é", " ", std::string(1, '\0'), "<", "世"};
  std::string r;
  for (int n = s.range(1, 4); n > 0; n--) r += s.pick(parts);
  return r;
}
CHECK_CASE(C24, odd_texts, 4) {
  Config cfg = gen_config(c.s);
  std::string d = dump(cfg.json);
  U good = gen_text_for(c.s, cfg, 8);
  bool judge = cfg.json["model"]["dropout"].num() == 0 || cfg.json["model"]["dropout"].null();
  c.describe(d);
  sut::Tokenizer k(d);
  auto encode = [&](sut::Tokenizer& t, const U& x, std::string& err) {
    Enc e;
    try {
      e = t.encode(x);
    } catch (const std::exception& ex) {
      err = ex.what();
    }
    return e;
  };
  std::string before_err, after_err;
  Enc before = encode(k, good, before_err);
  bool pristine = true;
  for (int n = c.s.range(1, 3); n > 0; n--) {
    if (c.s.chance(2, 3)) {
      U t = no_text(c.s, cfg.hints);
      d += "; encode " + show(t);
      c.describe(d);
      try {
        Enc e = k.encode(t);
        c.label("not a text: encoded");
        c.check(e.tokens.size() == e.ids.size() && e.offsets.size() == e.ids.size() && e.words.size() == e.ids.size(), "arrays differ in length");
        k.decode(e.ids);
      } catch (const std::exception&) {
        c.label("not a text: thrown");
        c.nontrivial = true;
      }
    } else {
      ATok x;
      x.content = no_utf8(c.s);
      // ill-formed contents change nothing, others may
      bool valid = utf8_valid(x.content, nullptr);
      x.normalized = c.s.coin();
      x.special = c.s.coin();
      x.lstrip = c.s.coin();
      d += "; add " + quote(x.content) + (x.normalized ? " normalized" : "") + (x.special ? " special" : "");
      c.describe(d);
      try {
        if (c.s.coin()) k.add_tokens({x});
        else k.add_special_tokens({x});
        c.check(valid, "a content that is not UTF-8 was accepted");
        pristine = false;
      } catch (const std::exception&) {
        c.check(!valid, "a content that is UTF-8 was rejected");
        c.label("not UTF-8: thrown");
        c.nontrivial = true;
      }
      k.decode({-1, 0, 1, 2, 1000});
    }
  }
  d += "; encode " + show(good);
  c.describe(d);
  Enc after = encode(k, good, after_err);
  // a stride that leaves no room is noticed only by texts that are cut
  const J& trunc = cfg.json["truncation"];
  if (pristine || trunc.null() || trunc["stride"].num() == 0) c.check(after_err == before_err, "a text is rejected afterwards: " + after_err);
  if (pristine && judge) c.check(after == before && after_err == before_err, "a text is encoded differently afterwards: " + diff(before, after) + " " + after_err);
}
CHECK_CASE(C24, odd_texts_components, 2) {
  J norm = gen_normalizer(c.s, 3), pre = gen_pre_tokenizer(c.s, 3, true);
  U t = no_text(c.s, {});
  c.describe(dump(norm) + " and " + dump(pre) + " on " + show(t));
  auto attempt = [&](auto f) {
    try {
      f();
      c.label("returned");
    } catch (const std::exception&) {
      c.label("thrown");
    }
  };
  sut::Normalizer n(dump(norm));
  sut::PreTokenizer p(dump(pre));
  attempt([&] { n.normalize(t); });
  attempt([&] { p.apply(sut::PTS(t)); });
  attempt([&] { p.apply(n.normalize_pts(t)); });
  c.nontrivial = true;
}
