// C09, C10: pre-tokenizers against the reference model.
#include <algorithm>

#include "gen.h"

// Cuts a text into pieces, some of them holding an added token.
static ref::PreText cut(Case& c, const U& t) {
  ref::PreText p = ref::whole(ref::original(t));
  if (t.size() < 2 || c.s.chance(2, 3)) return p;
  p.pieces.clear();
  int at = 0, n = t.size();
  bool tok = c.s.coin();
  while (at < n) {
    int e = std::min(n, at + c.s.range(1, std::max(1, n / 2)));
    ref::RPiece x{at, e, {}};
    if (tok) x.toks.push_back({c.s.range(0, 99), utf8(t.substr(at, e - at)), 0, e - at});
    tok = c.s.chance(1, 3);
    p.pieces.push_back(x);
    at = e;
  }
  c.label("pieces holding tokens");
  return p;
}
static sut::PTS to_sut(const U& t, const ref::PreText& p) {
  sut::PTS r(t);
  r.set_pieces(ref::pieces(p));
  return r;
}
static U slice_of(const U& t, const Piece& p) { return t.substr(p.s, p.e - p.s); }

PROPERTY(C09, 180000,
         "text (white space of all kinds, punctuation, symbols, CJK, marks, every plane) as one "
         "piece or cut into pieces of which some hold a token, through BertPreTokenizer, Split "
         "(patterns from a small regular-expression grammar, Isolated/Removed, inverted or not) "
         "or a Sequence of them; compared with an own matcher, and the partition checked "
         "directly. Non-trivial: at least two pieces result")
static void partition(Case& c, const U& t, const std::vector<Piece>& got) {
  int at = 0;
  for (auto& p : got) {
    c.check(p.s >= at && p.e <= (int)t.size() && p.s <= p.e, "pieces out of order: " + show(got));
    c.check(p.s < p.e, "empty piece: " + show(got));
    c.check(p.text == utf8(slice_of(t, p)), "piece text is not the slice at its offsets: " + show(got));
    at = p.e;
  }
}
static void pre_case(Case& c, const J& spec, const U& t) {
  auto p = cut(c, t);
  c.describe(dump(spec) + " on " + show(t) + (p.pieces.size() > 1 ? " cut " + show(ref::pieces(p)) : ""));
  sut::PreTokenizer k(dump(spec));
  auto want = ref::pieces(ref::pre_tokenize(spec, p));
  auto got = k.apply(to_sut(t, p)).pieces();
  c.nontrivial = want.size() > 1;
  c.check(got == want, "expected " + show(want) + " but got " + show(got));
  std::string d = dump(spec);
  if (d.find("Split\"") != std::string::npos || d.find("Bert") != std::string::npos) partition(c, t, got);
}
CHECK_CASE(C09, bert, 4) {
  J spec = J::obj({{"type", "BertPreTokenizer"}});
  U t = gen_text(c.s, TextOpts());
  pre_case(c, spec, t);
}
// every character of the planes: its class decides
CHECK_CASE(C09, bert_sweep, 1) {
  J spec = J::obj({{"type", "BertPreTokenizer"}});
  char32_t base = c.s.coin() ? c.s.draw(0x40) * 0x40 : c.s.draw(0x800) * 0x40;
  U t;
  for (char32_t ch = base; ch < base + 0x40; ch++)
    if (in_domain(ch)) {
      t += ch;
      if (c.s.chance(1, 4)) t += U'a';
    }
  pre_case(c, spec, t);
}
CHECK_CASE(C09, split, 6) {
  J spec = gen_split(c.s);
  TextOpts o;
  o.hints = {U"a", U"b", U" ", U"-", U"aa", U"é", U"世", U"😀", U".", U"ab", U"▁"};
  U t = gen_text(c.s, o);
  c.label(spec["behavior"].str() + (spec["invert"].flag() ? " inverted" : ""));
  pre_case(c, spec, t);
}
CHECK_CASE(C09, chain, 3) {
  J spec = gen_pre_tokenizer(c.s, 2, false);
  TextOpts o;
  o.hints = {U"a", U"b", U" ", U"-", U"aa", U"é", U"世", U"😀", U".", U"ab"};
  pre_case(c, spec, gen_text(c.s, o));
}

PROPERTY(C10, 150000,
         "text of every plane, white-space runs, contractions, as one piece or cut into pieces "
         "of which some hold a token, through ByteLevel with and without prefix space and "
         "regex; the byte characters cut into tokens at any character and decoded; compared "
         "with the bytes of the text and an own scanner for the GPT-2 pattern. Non-trivial: "
         "the text has multi-byte characters or several pieces")
static std::string from_byte_chars(const std::string& s, bool* ok) {
  std::string r;
  auto& bc = ref::byte_chars();
  for (char32_t ch : utf8_decode(s)) {
    int b = -1;
    for (int i = 0; i < 256; i++)
      if (bc[i] == utf8(ch)) b = i;
    if (b < 0) {
      *ok = false;
      return r;
    }
    r += static_cast<char>(b);
  }
  return r;
}
CHECK_CASE(C10, alphabet, 1) {
  int b = c.s.draw(256);
  c.describe("byte " + std::to_string(b));
  auto al = sut::byte_alphabet();
  c.nontrivial = true;
  c.check(al.size() == 256, "the alphabet has " + std::to_string(al.size()) + " entries");
  std::set<int> bytes;
  std::set<std::string> chars;
  for (auto& p : al) {
    bytes.insert(p.first);
    chars.insert(p.second);
    c.check(p.first >= 0 && p.first < 256, "not a byte: " + std::to_string(p.first));
    c.check(p.second == ref::byte_chars()[p.first], "character of byte " + std::to_string(p.first) + " is " + quote(p.second));
  }
  c.check(bytes.size() == 256 && chars.size() == 256, "not a bijection");
  std::string byte_char = ref::byte_chars()[b];
  sut::Decoder d(dump(J::obj({{"type", "ByteLevel"}, {"add_prefix_space", true}, {"trim_offsets", true}, {"use_regex", true}})));
  std::string all;
  for (auto& x : d.decode({byte_char})) all += x;
  // a byte that is no UTF-8 on its own has no text
  if (b < 128) c.check(all == std::string(1, static_cast<char>(b)), "byte " + std::to_string(b) + " decodes to " + quote(all));
}
CHECK_CASE(C10, pieces, 8) {
  J spec = J::obj({{"type", "ByteLevel"}, {"add_prefix_space", c.s.coin()},
                   {"trim_offsets", c.s.coin()}, {"use_regex", c.s.chance(2, 3)}});
  TextOpts o;
  o.hints = {U" ", U"  ", U"\n", U"'s", U"'re", U"'ll", U"a1", U" a", U" .", U"'", U" '", U"\u00a0", U"1", U"é", U"'ve", U"'d", U"'m", U"'t"};
  U t = gen_text(c.s, o);
  auto p = cut(c, t);
  c.describe(dump(spec) + " on " + show(t) + (p.pieces.size() > 1 ? " cut " + show(ref::pieces(p)) : ""));
  sut::PreTokenizer k(dump(spec));
  auto w = ref::pre_tokenize(spec, p);
  if (w.ambiguous) c.exclude("prefix space before white space other than a space");
  auto want = ref::pieces(w);
  auto got = k.apply(to_sut(t, p)).pieces();
  // whether empty text is an empty piece or none is left open
  if (t.empty() && want.empty()) got.erase(std::remove(got.begin(), got.end(), Piece()), got.end());
  for (char32_t ch : t)
    if (ch > 127) c.nontrivial = true;
  if (want.size() > 2) c.nontrivial = true;
  c.check(got == want, "expected " + show(want) + " but got " + show(got));
  // lossless, read off the result alone
  std::string bytes;
  bool ok = true;
  for (auto& q : got) bytes += q.toks.empty() ? from_byte_chars(q.text, &ok) : q.text;
  c.check(ok, "a character outside the byte alphabet: " + show(got));
  std::string expect;
  for (auto& x : p.pieces) {
    U s = t.substr(x.b, x.e - x.b);
    if (x.toks.empty() && spec["add_prefix_space"].flag() && !s.empty() && !is_ws(s[0])) expect += ' ';
    expect += utf8(s);
  }
  c.check(bytes == expect, "bytes " + quote(bytes) + " expected " + quote(expect));
}
CHECK_CASE(C10, decode, 4) {
  U t = gen_text(c.s, TextOpts());
  J spec = J::obj({{"type", "ByteLevel"}, {"add_prefix_space", c.s.coin()}, {"trim_offsets", c.s.coin()}, {"use_regex", c.s.coin()}});
  U bc = utf8_decode(ref::to_byte_chars(utf8(t)));
  std::vector<std::string> toks;
  int style = c.s.draw(3);
  for (size_t i = 0; i < bc.size();) {
    size_t n = style == 0 ? 1 : style == 1 ? c.s.range(1, 4) : c.s.range(1, 40);
    toks.push_back(utf8(bc.substr(i, n)));
    i += n;
  }
  c.describe("decode " + show(toks) + " of " + show(t));
  for (char32_t ch : t)
    if (ch > 127 && toks.size() > 1) c.nontrivial = true;
  sut::Decoder d(dump(spec));
  std::string got;
  for (auto& x : d.decode(toks)) got += x;
  c.check(got == utf8(t), "decodes to " + quote(got) + " expected " + quote(utf8(t)));
}
// two byte-level steps on either side of the tokens of a whole pipeline are in
// C20; here the pre-tokenizer followed by the decoder
CHECK_CASE(C10, roundtrip, 3) {
  U t = gen_text(c.s, TextOpts());
  bool prefix = c.s.chance(1, 3);
  J spec = J::obj({{"type", "ByteLevel"}, {"add_prefix_space", prefix}, {"trim_offsets", c.s.coin()}, {"use_regex", c.s.coin()}});
  if (prefix && !t.empty() && is_ws(t[0]) && t[0] != ' ') c.exclude("prefix space before white space other than a space");
  c.describe(dump(spec) + " there and back on " + show(t));
  sut::PreTokenizer k(dump(spec));
  sut::Decoder d(dump(spec));
  std::vector<std::string> toks;
  for (auto& p : k.apply(sut::PTS(t)).pieces()) toks.push_back(p.text);
  c.nontrivial = toks.size() > 1;
  std::string got;
  for (auto& x : d.decode(toks)) got += x;
  std::string want = (prefix && !t.empty() && t[0] != ' ' ? " " : "") + utf8(t);
  c.check(got == want, "gives " + quote(got) + " expected " + quote(want));
}

// ------------------------------------------------------------- long texts
// the first pieces that differ
static std::string first_diff(const std::vector<Piece>& want, const std::vector<Piece>& got) {
  size_t i = 0;
  while (i < want.size() && i < got.size() && want[i] == got[i]) i++;
  auto at = [&](const std::vector<Piece>& v) {
    return i < v.size() ? show(std::vector<Piece>(v.begin() + i, v.begin() + std::min(v.size(), i + 2))) : std::string("no more");
  };
  return std::to_string(want.size()) + " pieces expected, " + std::to_string(got.size()) + " given; first different is piece " +
         std::to_string(i) + ": expected " + at(want) + " but got " + at(got);
}
static void big_pre(Case& c, const J& spec, const U& t) {
  auto p = cut(c, t);
  c.describe(dump(spec) + " on " + show(t));
  auto w = ref::pre_tokenize(spec, p);
  if (w.ambiguous) c.exclude("prefix space before white space other than a space");
  sut::PreTokenizer k(dump(spec));
  auto want = ref::pieces(w);
  auto got = k.apply(to_sut(t, p)).pieces();
  c.nontrivial = want.size() > 1;
  c.check(got == want, first_diff(want, got));
}
CHECK_RARE(C09, long_bert, 100) {
  big_pre(c, J::obj({{"type", "BertPreTokenizer"}}), gen_big_text(c.s, TextOpts(), 66000));
}
CHECK_RARE(C09, long_split, 150) {
  ref::Rx r = gen_rx(c.s, 1);
  std::string text = ref::icu(r);
  ref::put_rx(text, r);
  J spec = J::obj({{"type", "Split"}, {"pattern", J::obj({{"Regex", text}})},
                   {"behavior", c.s.coin() ? "Removed" : "Isolated"}, {"invert", c.s.chance(1, 3)}});
  if (c.s.chance(1, 4)) spec = J::obj({{"type", "Sequence"}, {"pretokenizers", J::arr({spec, J::obj({{"type", "BertPreTokenizer"}})})}});
  TextOpts o;
  o.hints = {U"a", U"b", U" ", U"-", U"aa", U"é", U"世", U"😀", U".", U"ab", U"▁"};
  big_pre(c, spec, gen_big_text(c.s, o, 33000));
}
// matches of up to a million repetitions of a group, more than a matcher with a
// limited stack gets through; the matches are the runs by construction
CHECK_RARE(C09, long_match, 12) {
  static const std::vector<std::pair<std::string, std::vector<U>>> groups = {
      {"(?:ab|c)+", {U"ab", U"c"}}, {"(ab|c)+", {U"ab", U"c"}}, {"(?:世|[0-9]a)+", {U"世", U"5a", U"0a"}},
      {"(?:😀|x)+", {U"😀", U"x"}}, {"(?:(?:ab)+|cd)+", {U"ab", U"cd"}}, {"(?:[a-m]n)+", {U"an", U"bn"}}};
  auto& g = c.s.pick(groups);
  bool removed = c.s.coin(), invert = c.s.chance(1, 3);
  J spec = J::obj({{"type", "Split"}, {"pattern", J::obj({{"Regex", g.first}})}, {"behavior", removed ? "Removed" : "Isolated"}, {"invert", invert}});
  U t;
  std::vector<Piece> want;
  Lcg next(c.s.draw(1 << 16));
  std::string note;
  auto piece = [&](const U& x, bool match) {
    int at = t.size();
    t += x;
    if (!removed || match == invert) want.push_back({utf8(x), at, (int)t.size()});
  };
  for (int n = c.s.range(1, 4); n > 0; n--) {
    int reps = c.s.chance(1, 3) ? 400000 << c.s.draw(2) : 1 << c.s.range(0, 19);
    if (t.size() + reps > 900000) reps = 5;
    U run;
    bool one = c.s.coin();
    for (int i = 0; i < reps; i++) run += g.second[one ? 0 : next(g.second.size())];
    if (c.s.coin()) piece(U(c.s.range(1, 3), U'-'), false);
    else if (!t.empty()) piece(U" ", false);
    piece(run, true);
    note += " " + std::to_string(reps);
  }
  c.describe(dump(spec) + " on runs of" + note + " groups");
  c.nontrivial = t.size() > 1000;
  c.check(sut::PreTokenizer(dump(spec)).apply(sut::PTS(t)).pieces() == want, "not the runs and what is between them");
}
CHECK_RARE(C10, long_text, 300) {
  bool prefix = c.s.chance(1, 3);
  J spec = J::obj({{"type", "ByteLevel"}, {"add_prefix_space", prefix}, {"trim_offsets", c.s.coin()}, {"use_regex", c.s.chance(2, 3)}});
  TextOpts o;
  o.dense_max = 5000;
  U t = gen_big_text(c.s, o, 66000);
  big_pre(c, spec, t);
  if (prefix && is_ws(t[0]) && t[0] != ' ') return;
  // there and back
  sut::PreTokenizer k(dump(spec));
  sut::Decoder d(dump(spec));
  std::vector<std::string> toks;
  for (auto& p : k.apply(sut::PTS(t)).pieces()) toks.push_back(p.text);
  std::string got;
  for (auto& x : d.decode(toks)) got += x;
  std::string want = (prefix && t[0] != ' ' ? " " : "") + utf8(t);
  c.check(got == want, "gives " + std::to_string(got.size()) + " bytes, expected " + std::to_string(want.size()) + " others");
}
