// C06, C07, C08: normalizers against the reference model.
#include <algorithm>

#include "gen.h"

static U sweep_text(Src& s) {
  // consecutive characters, so that every block is met
  char32_t base;
  switch (s.weighted({6, 4, 3, 1})) {
    case 0: base = s.draw(0x30) * 0x40; break;               // up to U+0BFF
    case 1: base = s.draw(0x400) * 0x40; break;              // BMP
    case 2: base = 0x10000 + s.draw(0x400) * 0x40; break;    // SMP
    default: base = 0x20000 + s.draw(0x440) * 0x40; break;
  }
  int sep = s.draw(3);
  U t;
  for (char32_t c = base; c < base + 0x40; c++) {
    if (!in_domain(c)) continue;
    t += c;
    if (sep) t += sep == 1 ? U'a' : U' ';
  }
  return t;
}
static U any_text(Src& s, const std::vector<U>& hints = {}, int weight = 8) {
  if (s.chance(1, 8)) return sweep_text(s);
  TextOpts o;
  o.hints = hints;
  o.hint_weight = weight;
  o.max_pieces = s.chance(1, 30) ? 600 : 60;
  return gen_text(s, o);
}
static std::string not_same(const U& in, const U& want, const U& got) {
  return show(in) + " became " + show(got) + ", expected " + show(want);
}
static bool ascii(const U& t) {
  for (char32_t c : t)
    if (c > 127) return false;
  return true;
}

PROPERTY(C06, 500000,
         "text of up to 600 units (letters, accented and combining sequences in any order, "
         "Hangul, compatibility characters, every plane, blocks of consecutive code points) "
         "through one of the four forms; compared with the Unicode algorithm run over the "
         "character data. Non-trivial: the text has non-ASCII characters and the form changes "
         "it, or it is the output of the form being fed back")

static const char* form_names[] = {"NFC", "NFD", "NFKC", "NFKD"};
CHECK_CASE(C06, forms, 8) {
  int f = c.s.draw(4);
  U t = any_text(c.s);
  c.describe(std::string(form_names[f]) + " of " + show(t));
  sut::Normalizer n(dump(J::obj({{"type", form_names[f]}})));
  U want = ref::form(t, static_cast<ref::Form>(f));
  U got = n.normalize(t);
  c.nontrivial = !ascii(t) && want != t;
  c.label(want == t ? "already in form" : "changed");
  c.label(form_names[f]);
  c.check(got == want, not_same(t, want, got));
  U again = n.normalize(got);
  c.check(again == got, "not idempotent: " + not_same(got, got, again));
}
// one character repeated or a long combining sequence: expansions and reordering
CHECK_CASE(C06, runs, 2) {
  int f = c.s.draw(4);
  U t;
  if (c.s.coin()) {
    t = U(c.s.range(1, 200), gen_char(c.s));
  } else {
    t = U(1, gen_char(c.s));
    static const char32_t m[] = {0x301, 0x327, 0x323, 0x308, 0x345, 0x5b0, 0x3099, 0x1d165, 0x334};
    for (int i = c.s.range(1, 60); i > 0; i--) t += m[c.s.draw(9)];
    t += gen_unit(c.s);
  }
  c.describe(std::string(form_names[f]) + " of " + show(t));
  sut::Normalizer n(dump(J::obj({{"type", form_names[f]}})));
  U want = ref::form(t, static_cast<ref::Form>(f)), got = n.normalize(t);
  c.nontrivial = want != t;
  c.check(got == want, not_same(t, want, got));
  c.check(n.normalize(got) == got, "not idempotent on " + show(got));
}
// text already in the form, made by concatenating normalized pieces where the
// reference says the whole is still normalized
CHECK_CASE(C06, already, 1) {
  int f = c.s.draw(4);
  U t = ref::form(any_text(c.s), static_cast<ref::Form>(f));
  c.describe(std::string(form_names[f]) + " of " + show(t));
  sut::Normalizer n(dump(J::obj({{"type", form_names[f]}})));
  c.nontrivial = !ascii(t);
  U got = n.normalize(t);
  c.check(got == t, not_same(t, t, got));
}

PROPERTY(C07, 500000,
         "text (all character classes, blocks of consecutive code points of every plane) under "
         "all combinations of clean_text, handle_chinese_chars, strip_accents (true, false, "
         "null) and lowercase; compared with the reference steps. Non-trivial: at least one "
         "flag is on and the text changes")
CHECK_CASE(C07, bert, 10) {
  bool clean = c.s.coin(), cjk = c.s.coin(), lower = c.s.coin();
  int sa = c.s.draw(3);
  J n = J::obj({{"type", "BertNormalizer"}, {"clean_text", clean},
                {"handle_chinese_chars", cjk},
                {"strip_accents", sa == 0 ? J() : J(sa == 1)}, {"lowercase", lower}});
  bool strip = sa == 0 ? lower : sa == 1;
  U t = any_text(c.s);
  // its lower case is disputed unless its accent goes
  if (lower && !strip)
    for (auto& ch : t)
      if (ch == 0x130) ch = 'I';
  c.describe(dump(n) + " on " + show(t));
  sut::Normalizer k(dump(n));
  U want = ref::normalize(n, t), got = k.normalize(t);
  c.nontrivial = want != t;
  c.label(std::string("flags ") + (clean ? "clean " : "") + (cjk ? "cjk " : "") +
          (sa == 0 ? "accents-null " : sa == 1 ? "accents " : "") + (lower ? "lower" : ""));
  c.check(got == want, not_same(t, want, got));
}
// a step that is off leaves alone what only that step would touch
CHECK_CASE(C07, off, 1) {
  J n = J::obj({{"type", "BertNormalizer"}, {"clean_text", false},
                {"handle_chinese_chars", false}, {"strip_accents", false}, {"lowercase", false}});
  U t = any_text(c.s);
  c.describe(dump(n) + " on " + show(t));
  sut::Normalizer k(dump(n));
  c.nontrivial = !ascii(t);
  U got = k.normalize(t);
  c.check(got == t, not_same(t, t, got));
}

PROPERTY(C08, 500000,
         "text built around the configured strings with Prepend, Replace (literal patterns of "
         "0-3 characters, including regular-expression metacharacters, overlapping and empty "
         "ones; contents of 0-3 characters), Strip and StripAccents; compared with direct "
         "definitions. Non-trivial: the normalizer changes the text")
static U literal(Src& s, int lo, int hi) {
  static const U pool = U"a b▁.*+?()[]\\^$|é世😀\u0301\nA-/#\u00a0";
  U r;
  for (int n = s.range(lo, hi); n > 0; n--) r += s.chance(1, 6) ? gen_char(s) : pool[s.draw(pool.size())];
  return r;
}
static void compare(Case& c, const J& n, const U& t) {
  c.describe(dump(n) + " on " + show(t));
  sut::Normalizer k(dump(n));
  U want = ref::normalize(n, t), got = k.normalize(t);
  c.nontrivial = want != t;
  c.check(got == want, not_same(t, want, got));
}
CHECK_CASE(C08, prepend, 2) {
  U p = literal(c.s, 0, 4);
  J n = J::obj({{"type", "Prepend"}, {"prepend", utf8(p)}});
  U t = c.s.chance(1, 10) ? U() : any_text(c.s, {p});
  compare(c, n, t);
  c.check(t.empty() == sut::Normalizer(dump(n)).normalize(t).empty(), "empty text changed");
}
CHECK_CASE(C08, replace, 5) {
  U p;
  if (c.s.coin()) {
    p = literal(c.s, 1, 3);
  } else {  // self-overlapping
    p = U(c.s.range(1, 4), U"aé "[c.s.draw(3)]);
    if (c.s.chance(1, 3)) p += U'b';
  }
  U w = literal(c.s, 0, 3);
  if (c.s.chance(1, 4)) w += p;  // content holding the pattern
  J n = J::obj({{"type", "Replace"}, {"pattern", J::obj({{"String", utf8(p)}})}, {"content", utf8(w)}});
  U t = any_text(c.s, {p, p, p.substr(0, 1), w, p + p, p.substr(p.size() - 1)}, 13);
  if (t.find(p) != U::npos) c.label("pattern occurs");
  compare(c, n, t);
}
CHECK_CASE(C08, strip, 3) {
  J n = J::obj({{"type", "Strip"}, {"strip_left", c.s.coin()}, {"strip_right", c.s.coin()}});
  static const U ws = U" \t\n\r\v\f\u0085\u00a0\u1680\u2000\u2003\u200a\u2028\u2029\u202f\u205f\u3000";
  static const U near = U"\u200b\ufeff\u180e\u2060\u00ad\u200d\0\x1f\x1b";
  auto edge = [&] {
    U r;
    for (int k = c.s.range(0, 5); k > 0; k--) r += c.s.chance(1, 8) ? near[c.s.draw(near.size())] : ws[c.s.draw(ws.size())];
    return r;
  };
  U t = edge();
  if (!c.s.chance(1, 8)) t += any_text(c.s);
  t += edge();
  U clean;
  for (char32_t ch : t)
    if (in_domain(ch)) clean += ch;
  compare(c, n, clean);
}
CHECK_CASE(C08, accents, 3) {
  U t = any_text(c.s);
  if (c.s.coin()) t = ref::form(t, ref::NFD);
  compare(c, J::obj({{"type", "StripAccents"}}), t);
}

// ------------------------------------------------------------- long texts
static std::string big_diff(const U& want, const U& got) {
  size_t i = 0;
  while (i < want.size() && i < got.size() && want[i] == got[i]) i++;
  auto around = [&](const U& t) { return show(t.substr(i < 10 ? 0 : i - 10, 30)); };
  return "expected " + std::to_string(want.size()) + " characters but got " + std::to_string(got.size()) +
         ", first different at " + std::to_string(i) + ": expected ..." + around(want) + " but got ..." + around(got);
}
CHECK_RARE(C06, long_text, 400) {
  int f = c.s.draw(4);
  U t = gen_big_text(c.s, TextOpts(), 66000);
  if (c.s.chance(1, 6)) {  // one long combining sequence inside
    static const char32_t m[] = {0x301, 0x327, 0x323, 0x308, 0x345, 0x5b0, 0x3099, 0x1d165, 0x334};
    Lcg next(c.s.draw(1 << 16));
    U run;
    for (int k = c.s.range(30, 3000); k > 0; k--) run += m[next(9)];
    t.insert(c.s.draw(t.size() + 1), run);
  }
  c.describe(std::string(form_names[f]) + " of " + show(t));
  sut::Normalizer n(dump(J::obj({{"type", form_names[f]}})));
  U want = ref::form(t, static_cast<ref::Form>(f)), got = n.normalize(t);
  c.nontrivial = want != t;
  c.check(got == want, big_diff(want, got));
  U again = n.normalize(got);
  c.check(again == got, "not idempotent: " + big_diff(got, again));
}
static void big_compare(Case& c, const J& n, const U& t) {
  c.describe(dump(n) + " on " + show(t));
  sut::Normalizer k(dump(n));
  U want = ref::normalize(n, t), got = k.normalize(t);
  c.nontrivial = want != t;
  c.check(got == want, big_diff(want, got));
}
static U long_text(Src& s) {
  TextOpts o;
  o.dense_max = 5000;
  return gen_big_text(s, o, 66000);
}
CHECK_RARE(C07, long_text, 400) {
  int sa = c.s.draw(3);
  bool lower = c.s.coin();
  J n = J::obj({{"type", "BertNormalizer"}, {"clean_text", c.s.coin()}, {"handle_chinese_chars", c.s.coin()},
                {"strip_accents", sa == 0 ? J() : J(sa == 1)}, {"lowercase", lower}});
  U t = long_text(c.s);
  for (auto& ch : t)
    if (ch == 0x130) ch = 'I';
  big_compare(c, n, t);
}
CHECK_RARE(C08, long_text, 300) {
  U t = long_text(c.s);
  switch (c.s.draw(4)) {
    case 0: {
      U p = c.s.coin() ? literal(c.s, 1, 4) : gen_big_text(c.s, TextOpts(), 530);
      big_compare(c, J::obj({{"type", "Prepend"}, {"prepend", utf8(p)}}), t);
      break;
    }
    case 1: {  // a pattern of the text itself, short or long; contents too
      size_t at = c.s.draw(t.size());
      U p = t.substr(at, c.s.coin() ? c.s.range(1, 4) : c.s.range(5, 700));
      U w = c.s.coin() ? literal(c.s, 0, 3) : t.substr(0, c.s.range(4, 400) / (p.size() < 5 ? 40 : 1));
      int hits = 0;
      for (size_t i = t.find(p); i != U::npos; i = t.find(p, i + p.size())) hits++;
      if (hits * (p.size() + w.size()) * t.size() > 100000000) t.resize(std::min<size_t>(t.size(), 4000));
      big_compare(c, J::obj({{"type", "Replace"}, {"pattern", J::obj({{"String", utf8(p)}})}, {"content", utf8(w)}}), t);
      break;
    }
    case 2: {
      static const U ws = U" \t\n\u00a0\u3000\u2003";
      auto edge = [&] {
        U r(c.s.coin() ? 0 : big_size(c.s, 4200), ws[c.s.draw(6)]);
        if (c.s.coin()) r += ws[c.s.draw(6)];
        return r;
      };
      U a = edge(), b = edge();
      big_compare(c, J::obj({{"type", "Strip"}, {"strip_left", c.s.coin()}, {"strip_right", c.s.coin()}}), a + t + b);
      break;
    }
    default:
      if (c.s.coin()) t = ref::form(t, ref::NFD);
      big_compare(c, J::obj({{"type", "StripAccents"}}), t);
  }
}
