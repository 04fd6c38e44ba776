// C13 to C16: what happens to an encoding after the model.
#include "gen.h"

PROPERTY(C13, 300000,
         "an encoding of up to 150 tokens with arbitrary arrays, truncated with max_length 0-40 "
         "(or around the encoding's length), every stride, both directions; compared with the "
         "windows computed directly; strides that leave no room must throw. Non-trivial: at "
         "least one overflowing window is due, or the stride leaves no room")
CHECK_CASE(C13, windows, 8) {
  Enc e = gen_encoding(c.s, 150, 0);
  J t = gen_truncation(c.s);
  if (c.s.chance(1, 4)) {
    int max = std::max(1, (int)e.ids.size() + c.s.range(-3, 3));
    t.set("max_length", max);
    t.set("stride", max > 1 && c.s.coin() ? c.s.range(0, max - 1) : 0);
  }
  c.describe(dump(t) + " on " + show(e));
  bool rejects = false;
  Enc want = ref::truncate(t, e, 0, &rejects);
  sut::Trunc k(dump(t));
  Enc got = k.apply(e);
  c.nontrivial = !want.over.empty();
  c.label(want.over.empty() ? "fits" : t["direction"].str() + (t["stride"].num() ? " stride" : ""));
  c.check(got == want, diff(want, got));
  if (want.over.empty()) return;
  if (t["max_length"].num() == 0) {
    c.label("max_length 0");
    return;
  }
  // the same, read off the result alone: every token, consecutive windows
  bool right = t["direction"].str() == "Right";
  std::vector<const Enc*> w = {&got};
  for (auto& o : got.over) w.push_back(&o);
  std::vector<int> ids;
  size_t stride = t["stride"].num();
  for (size_t i = 0; i < w.size(); i++) {
    c.check(w[i]->ids.size() <= (size_t)t["max_length"].num(), "a window is longer than max_length");
    auto v = w[i]->ids;
    if (i > 0) {
      c.check(v.size() > stride, "a window brings nothing new");
      if (right)
        v.erase(v.begin(), v.begin() + stride);
      else
        v.resize(v.size() - stride);
    }
    ids.insert(right ? ids.end() : ids.begin(), v.begin(), v.end());
  }
  c.check(ids == e.ids, "the windows do not cover the tokens");
}
CHECK_CASE(C13, no_room, 1) {
  Enc e = gen_encoding(c.s, 60, 0);
  int max = c.s.range(1, 12), stride = max + c.s.draw(4);
  J t = J::obj({{"direction", c.s.coin() ? "Left" : "Right"}, {"strategy", c.s.coin() ? "OnlyFirst" : "LongestFirst"},
                {"max_length", max}, {"stride", stride}});
  c.describe(dump(t) + " on " + show(e));
  c.nontrivial = (int)e.ids.size() > max;
  bool threw = false;
  try {
    sut::Trunc k(dump(t));
    Enc got = k.apply(e);
    if ((int)e.ids.size() <= max) c.check(got == e, diff(e, got));
  } catch (const Violation&) {
    throw;
  } catch (const std::exception&) {
    threw = true;
  }
  if (c.nontrivial) c.check(threw, "a stride without room to advance was accepted");
}

PROPERTY(C14, 300000,
         "an encoding of up to 60 tokens with overflowing encodings and arbitrary arrays, "
         "padded to Fixed 0-30 (or around its length) or BatchLongest, multiples of 0-9 or none, "
         "both sides; compared with the direct definition (the word index of filler is left "
         "open), twice. Non-trivial: filler is due on a non-empty encoding")
static void same_words(Enc& want, const Enc& got, const Enc& orig, bool left) {
  size_t k = want.ids.size() - orig.ids.size();
  if (got.words.size() == want.words.size())
    for (size_t i = 0; i < k; i++) {
      size_t at = left ? i : orig.ids.size() + i;
      want.words[at] = got.words[at];
    }
  for (size_t i = 0; i < std::min(want.over.size(), got.over.size()); i++)
    same_words(want.over[i], got.over[i], orig.over[i], left);
}
CHECK_CASE(C14, pad, 1) {
  Enc e = gen_encoding(c.s, 60, 1);
  J p = gen_padding(c.s);
  if (c.s.chance(1, 3) && p["strategy"].kind == J::OBJ)
    p.set("strategy", J::obj({{"Fixed", std::max(0, (int)e.ids.size() + c.s.range(-4, 4))}}));
  c.describe(dump(p) + " on " + show(e));
  sut::Pad k(dump(p));
  Enc want = ref::pad(p, e), got = k.apply(e);
  bool left = p["direction"].str() == "Left";
  c.nontrivial = want.ids.size() > e.ids.size() && !e.ids.empty();
  c.label(std::string(left ? "left" : "right") + (c.nontrivial ? " filler" : "") + (e.over.empty() ? "" : " overflow"));
  same_words(want, got, e, left);
  c.check(got == want, diff(want, got));
  Enc again = k.apply(got);
  c.check(again == got, "padding again changed it: " + diff(got, again));
}

PROPERTY(C15, 300000,
         "an encoding of up to 60 tokens with overflowing encodings through a template of "
         "0-5 special tokens on either side (several ids each, repeated, quoted and non-ASCII "
         "names, names equal to sequence names), with and without special tokens; compared with "
         "the direct definition. Non-trivial: special tokens are inserted around a non-empty "
         "encoding")
CHECK_CASE(C15, templates, 1) {
  Enc e = gen_encoding(c.s, 60, 1);
  J p = gen_template(c.s, nullptr);
  bool add = !c.s.chance(1, 4);
  c.describe(dump(p) + (add ? " with" : " without") + " special tokens on " + show(e));
  sut::Post k(dump(p));
  Enc want = ref::post(p, e, add), got = k.process(e, add);
  c.nontrivial = want.ids.size() > e.ids.size() && !e.ids.empty();
  c.label(std::string(add ? "with" : "without") + (e.over.empty() ? "" : " overflow"));
  c.check(got == want, diff(want, got));
}

PROPERTY(C16, 300000,
         "an encoding of up to 60 byte-level tokens (runs of the space character on either side, "
         "nothing else, or line feeds in between) with offsets that may be shorter than the "
         "token and overflowing encodings, all flag combinations; compared with the "
         "direct definition. Non-trivial: trimming is on and some token has a space character")
CHECK_CASE(C16, trim, 1) {
  Enc e = gen_encoding(c.s, 60, 1, true);
  if (c.s.chance(1, 4))  // narrower or empty ranges
    for (size_t i = 0; i < e.offsets.size(); i++) {
      auto& o = e.offsets[i];
      int end = std::max(o.first, o.second - (c.s.coin() ? c.s.range(0, 3) : 0));
      // an end below the number of trailing spaces is left open
      int trail = 0;
      U t = utf8_decode(e.tokens[i]);
      while (trail < (int)t.size() && t[t.size() - 1 - trail] == U'Ġ') trail++;
      if (end >= trail) o.second = end;
    }
  if (c.s.chance(1, 4) && !e.ids.empty()) {  // a special token in front
    e.tokens[0] = "[CLS]";
    e.offsets[0] = {0, 0};
    e.special[0] = 1;
  }
  J p = J::obj({{"type", "ByteLevel"}, {"add_prefix_space", c.s.coin()}, {"trim_offsets", c.s.chance(3, 4)}, {"use_regex", c.s.coin()}});
  bool add = c.s.coin();
  c.describe(dump(p) + " on " + show(e));
  sut::Post k(dump(p));
  Enc want = ref::post(p, e, add), got = k.process(e, add);
  for (auto& t : e.tokens)
    if (p["trim_offsets"].flag() && t.find(ref::byte_chars()[' ']) != std::string::npos) c.nontrivial = true;
  c.label(p["trim_offsets"].flag() ? "trim" : "no trim");
  c.check(got == want, diff(want, got));
}

// ------------------------------------------------------- long encodings
CHECK_RARE(C13, long_encoding, 250) {
  Enc e = gen_big_encoding(c.s, 66000);
  int n = e.ids.size();
  static const int sizes[] = {1, 2, 5, 100, 127, 128, 129, 254, 255, 256, 257, 512, 1000, 4096, 32767, 32768, 65535, 65536, 65537};
  int max = c.s.coin() ? sizes[c.s.draw(19)] : std::max(1, c.s.coin() ? n + c.s.range(-2, 2) : c.s.range(1, n + 1));
  // as large a stride as leaves the windows of a size to handle
  int room = std::min<int64_t>(max, std::max<int64_t>(1, static_cast<int64_t>(max) * n / 1500000 + 1));
  int stride = c.s.weighted({2, 2, 1}) == 0 ? 0 : c.s.coin() ? max - room : c.s.range(0, max - room);
  J t = J::obj({{"direction", c.s.coin() ? "Left" : "Right"}, {"strategy", c.s.coin() ? "OnlyFirst" : "LongestFirst"},
                {"max_length", max}, {"stride", stride}});
  c.describe(dump(t) + " on " + show(e));
  bool rejects = false;
  Enc want = ref::truncate(t, e, 0, &rejects);
  sut::Trunc k(dump(t));
  Enc got = k.apply(e);
  c.nontrivial = !want.over.empty();
  if (!(got == want)) c.fail(diff(want, got));
}
// some overflowing encodings, or very many
static void add_overflow(Src& s, Enc& e) {
  if (s.coin()) return;
  std::vector<Enc> some;
  for (int i = s.range(1, 3); i > 0; i--) some.push_back(gen_encoding(s, 20, 0));
  int n = s.coin() ? s.range(1, 8) : big_size(s, 2100);
  for (int i = 0; i < n; i++) e.over.push_back(some[i % some.size()]);
}
CHECK_RARE(C14, long_encoding, 200) {
  Enc e = c.s.chance(3, 4) ? gen_big_encoding(c.s, 66000) : gen_encoding(c.s, 30, 0);
  add_overflow(c.s, e);
  J p = gen_padding(c.s);
  int n = e.ids.size();
  static const int sizes[] = {100, 255, 256, 257, 512, 1024, 4096, 32767, 32768, 65535, 65536, 65537, 70000};
  if (c.s.coin()) {
    // every overflowing encoding grows to it too
    int k = e.over.size() > 40 ? 7 : 13;
    p.set("strategy", J::obj({{"Fixed", c.s.coin() ? sizes[c.s.draw(k)] : e.over.size() > 40 ? 300 : n + c.s.range(-3, 300)}}));
  } else if (e.over.size() > 40) {
    p.set("strategy", J("BatchLongest"));
    if (n > 2000) e.over.resize(20);
  }
  if (c.s.chance(1, 3)) p.set("pad_to_multiple_of", e.over.size() > 40 ? c.s.range(1, 600) : sizes[c.s.draw(13)]);
  if (c.s.chance(1, 4)) {
    p.set("pad_id", c.s.coin() ? 2147483647 : 65536 + c.s.range(0, 9));
    p.set("pad_type_id", c.s.coin() ? 300 : 70000);
    p.set("pad_token", std::string(c.s.range(1, 300), 'p'));
  }
  c.describe(dump(p) + " on " + show(e));
  sut::Pad k(dump(p));
  Enc want = ref::pad(p, e), got = k.apply(e);
  c.nontrivial = want.ids.size() > e.ids.size() && !e.ids.empty();
  same_words(want, got, e, p["direction"].str() == "Left");
  if (!(got == want)) c.fail(diff(want, got));
}
CHECK_RARE(C15, long_encoding, 300) {
  Enc e = c.s.chance(3, 4) ? gen_big_encoding(c.s, 66000) : gen_encoding(c.s, 30, 0);
  add_overflow(c.s, e);
  J p = gen_template(c.s, nullptr);
  if (c.s.coin()) {  // many special tokens, of many ids, on both sides
    J specials = J::obj();
    int names = c.s.range(1, 300), ids = c.s.range(1, e.over.size() > 40 ? 10 : 80);
    for (int i = 0; i < names; i++) {
      std::string name = "s" + std::to_string(i);
      J id = J::arr(), tok = J::arr();
      for (int k = 0; k <= i % ids; k++) {
        id.a.push_back(J(i % 7 == 0 ? 2147483647 - k : i * 300 + k));
        tok.a.push_back(J(name + "." + std::to_string(k)));
      }
      specials.o.push_back({name, J::obj({{"id", name}, {"ids", id}, {"tokens", tok}})});
    }
    Lcg next(c.s.draw(1 << 16));
    auto side = [&](int k) {
      J a = J::arr();
      for (; k > 0; k--) a.a.push_back(J::obj({{"SpecialToken", J::obj({{"id", "s" + std::to_string(next(names))}, {"type_id", (int)next(400)}})}}));
      return a;
    };
    int most = e.over.size() > 40 ? 6 : 300;
    J single = side(c.s.range(0, most)), after = side(c.s.range(0, most));
    single.a.push_back(J::obj({{"Sequence", J::obj({{"id", "A"}, {"type_id", c.s.coin() ? 0 : 70000}})}}));
    single.a.insert(single.a.end(), after.a.begin(), after.a.end());
    p.set("single", single);
    p.set("special_tokens", specials);
  }
  bool add = !c.s.chance(1, 4);
  c.describe(dump(p) + (add ? " with" : " without") + " special tokens on " + show(e));
  sut::Post k(dump(p));
  Enc want = ref::post(p, e, add), got = k.process(e, add);
  c.nontrivial = want.ids.size() > e.ids.size() && !e.ids.empty();
  if (!(got == want)) c.fail(diff(want, got));
}
CHECK_RARE(C16, long_encoding, 500) {
  Enc e = gen_big_encoding(c.s, 66000, true);
  if (c.s.coin()) {  // one very long token
    U t;
    auto spaces = [&] { return U(c.s.coin() ? c.s.range(0, 5) : big_size(c.s, 2100), U'Ġ'); };
    t += spaces();
    t += U(c.s.coin() ? c.s.range(0, 3) : big_size(c.s, 66000), U'x');
    t += spaces();
    int at = e.offsets.empty() ? 0 : e.offsets.back().second, w = e.words.empty() ? 0 : 7;
    e.ids.push_back(5);
    e.type_ids.push_back(0);
    e.tokens.push_back(utf8(t));
    e.words.push_back(w);
    e.offsets.push_back({at, at + (int)t.size()});
    e.special.push_back(0);
    e.attention.push_back(1);
  }
  if (c.s.coin())
    for (int i = c.s.range(1, 300); i > 0; i--) e.over.push_back(gen_encoding(c.s, 3, 0, true));
  J p = J::obj({{"type", "ByteLevel"}, {"add_prefix_space", c.s.coin()}, {"trim_offsets", c.s.chance(3, 4)}, {"use_regex", c.s.coin()}});
  bool add = c.s.coin();
  c.describe(dump(p) + " on " + show(e));
  sut::Post k(dump(p));
  Enc want = ref::post(p, e, add), got = k.process(e, add);
  c.nontrivial = p["trim_offsets"].flag();
  if (!(got == want)) c.fail(diff(want, got));
}
