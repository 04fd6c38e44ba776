// Exhaustive sweeps: every assigned character, in a few contexts, through the
// components that treat characters one by one. A class of characters, a table
// or a range with one wrong end shows on a single character.
#include <algorithm>

#include "gen.h"

static const int PARTS = 96;
// the characters of one part; few of the private use ones
static U chars_of(int part) {
  static const U all = [] {
    U r;
    for (char32_t c = 0; c < 0x110000; c++) {
      bool priv = (c >= 0xe000 && c <= 0xf8ff) || c >= 0xf0000;
      if (in_domain(c) && (!priv || c % 128 == 0 || c % 0x1000 > 0xff0)) r += c;
    }
    return r;
  }();
  size_t n = all.size(), b = n * part / PARTS, e = n * (part + 1) / PARTS;
  return all.substr(b, e - b);
}
static U begin(Case& c, int part, const std::string& what) {
  U t = chars_of(part);
  char buf[64];
  snprintf(buf, sizeof buf, "every character from U+%04X to U+%04X: ", (unsigned)t[0], (unsigned)t.back());
  c.describe(buf + what);
  c.nontrivial = true;
  return t;
}
static J norm_of(const char* type) { return J::obj({{"type", type}}); }
static J bert(bool clean, bool cjk, J accents, bool lower) {
  return J::obj({{"type", "BertNormalizer"}, {"clean_text", clean}, {"handle_chinese_chars", cjk},
                 {"strip_accents", accents}, {"lowercase", lower}});
}
static void same(Case& c, const J& spec, const sut::Normalizer& n, const U& t) {
  U want = ref::normalize(spec, t), got = n.normalize(t);
  c.check(got == want, dump(spec) + " on " + show(t) + " gives " + show(got) + ", expected " + show(want));
}

CHECK_EACH(C06, each, PARTS) {
  static const char* names[] = {"NFC", "NFD", "NFKC", "NFKD"};
  U all = begin(c, part, "the four forms, alone and around other characters");
  for (int f = 0; f < 4; f++) {
    J spec = norm_of(names[f]);
    sut::Normalizer n(dump(spec));
    for (char32_t ch : all) {
      U x(1, ch);
      for (const U& t : {x, x + U(U"\u0301"), x + U(U"\u0323\u0302"), U(U"a\u0301") + x, U(U"가") + x + x, U(U"q\u0345") + x + U(U"\u0327")}) {
        U want = ref::form(t, static_cast<ref::Form>(f)), got = n.normalize(t);
        c.check(got == want, names[f] + std::string(" of ") + show(t) + " gives " + show(got) + ", expected " + show(want));
      }
    }
  }
}
// Unassigned code points are not judged when cleaning, which may or may not
// count them as controls; the other steps name their characters exactly.
CHECK_EACH(C07, each_unassigned, 16) {
  const J specs[] = {bert(false, true, false, false), bert(false, false, true, false), bert(false, false, false, true), bert(false, true, J(), true)};
  c.describe("unassigned code points, part " + std::to_string(part));
  c.nontrivial = true;
  for (auto& spec : specs) {
    sut::Normalizer n(dump(spec));
    U t;
    for (char32_t ch = 0x32000 * part / 16; ch < 0x32000u * (part + 1) / 16; ch++) {
      bool outside = in_domain(ch) || (ch >= 0xd800 && ch < 0xe000) || (ch >= 0x2b820 && ch <= 0x2b91f);
      if (!outside) t += ch;
      if (t.size() < 8 && ch + 1 < 0x32000u * (part + 1) / 16) continue;
      same(c, spec, n, t);
      t.clear();
    }
  }
}
CHECK_EACH(C07, each, PARTS) {
  U all = begin(c, part, "BertNormalizer with each step alone and all together");
  const J specs[] = {bert(true, false, false, false), bert(false, true, false, false), bert(false, false, true, false),
                     bert(false, false, false, true), bert(true, true, J(), true), bert(true, true, false, true),
                     bert(true, true, J(), false)};
  for (auto& spec : specs) {
    sut::Normalizer n(dump(spec));
    bool disputed = spec["lowercase"].flag() && !spec["strip_accents"].null();
    for (char32_t ch : all) {
      if (disputed && ch == 0x130) continue;
      U x(1, ch);
      same(c, spec, n, x);
      same(c, spec, n, U(U"a") + x + U(U"\u0301B") + x);
    }
  }
}
CHECK_EACH(C08, each, PARTS) {
  U all = begin(c, part, "Prepend, Replace, Strip and StripAccents");
  J strips[] = {J::obj({{"type", "Strip"}, {"strip_left", true}, {"strip_right", false}}),
                J::obj({{"type", "Strip"}, {"strip_left", false}, {"strip_right", true}}),
                J::obj({{"type", "Strip"}, {"strip_left", true}, {"strip_right", true}}), norm_of("StripAccents")};
  for (auto& spec : strips) {
    sut::Normalizer n(dump(spec));
    for (char32_t ch : all) {
      U x(1, ch);
      same(c, spec, n, x);
      same(c, spec, n, x + U(U" a") + x + U(U"b ") + x);
    }
  }
  for (char32_t ch : all) {
    U x(1, ch);
    J pre = J::obj({{"type", "Prepend"}, {"prepend", utf8(x)}});
    same(c, pre, sut::Normalizer(dump(pre)), U(U"a") + x);
    J from = J::obj({{"type", "Replace"}, {"pattern", J::obj({{"String", utf8(x)}})}, {"content", "<>"}});
    same(c, from, sut::Normalizer(dump(from)), x + U(U"a.*") + x + x);
    J to = J::obj({{"type", "Replace"}, {"pattern", J::obj({{"String", "a"}})}, {"content", utf8(x)}});
    same(c, to, sut::Normalizer(dump(to)), x + U(U"aba") + x);
  }
}
// one token for every character of the normalized text
CHECK_EACH(C02, each, PARTS) {
  U all = begin(c, part, "offsets after each normalizer");
  ref::Rx any;
  any.cls = "[\\s\\S]";
  ref::put_rx("[\\s\\S]", any);
  const J specs[] = {norm_of("NFC"), norm_of("NFD"), norm_of("NFKC"), norm_of("NFKD"), norm_of("StripAccents"),
                     bert(true, true, J(), true), bert(false, true, false, false)};
  for (auto& spec : specs) {
    J cfg = J::obj({{"version", "1.0"}, {"truncation", J()}, {"padding", J()}, {"added_tokens", J()}, {"normalizer", spec},
                    {"pre_tokenizer", J::obj({{"type", "Split"}, {"pattern", J::obj({{"Regex", "[\\s\\S]"}})}, {"behavior", "Isolated"}, {"invert", false}})},
                    {"post_processor", J()}, {"decoder", J()},
                    {"model", J::obj({{"type", "WordPiece"}, {"unk_token", "?"}, {"continuing_subword_prefix", "##"},
                                      {"max_input_chars_per_word", 100}, {"vocab", J::obj({{"?", 0}})}})}});
    ref::Tokenizer m(cfg);
    sut::Tokenizer k(dump(cfg));
    for (size_t i = 0; i < all.size(); i += 12) {
      U t;
      for (char32_t ch : all.substr(i, 12)) t += U(U"a") + ch + U'\u0301' + ch;
      ref::Tokenizer::Flags f;
      Enc want = m.encode(t, true, &f), got = k.encode(t);
      if (want.tokens != got.tokens) continue;
      c.check(want.offsets == got.offsets, dump(spec) + " on " + show(t) + ": " + diff(want, got));
    }
  }
}
static void split(Case& c, const J& spec, const sut::PreTokenizer& k, const U& t) {
  auto w = ref::pre_tokenize(spec, ref::whole(ref::original(t)));
  if (w.ambiguous) return;
  auto want = ref::pieces(w), got = k.apply(sut::PTS(t)).pieces();
  c.check(got == want, dump(spec) + " on " + show(t) + ": expected " + show(want) + " but got " + show(got));
}
CHECK_EACH(C09, each, PARTS) {
  U all = begin(c, part, "BertPreTokenizer, and Split on a class or on the character itself");
  std::vector<J> specs = {J::obj({{"type", "BertPreTokenizer"}})};
  for (const char* k : {"\\s", "\\p{L}", "\\p{N}", "[^\\s\\p{L}]"}) {
    ref::Rx one, r;
    one.cls = k;
    r.kind = ref::Rx::REP;
    r.min = 1;
    r.kids = {one};
    std::string text = ref::icu(r);
    ref::put_rx(text, r);
    specs.push_back(J::obj({{"type", "Split"}, {"pattern", J::obj({{"Regex", text}})}, {"behavior", "Isolated"}, {"invert", false}}));
  }
  for (auto& spec : specs) {
    sut::PreTokenizer k(dump(spec));
    for (size_t i = 0; i < all.size(); i += 12) {
      U t;
      for (char32_t ch : all.substr(i, 12)) {
        U x(1, ch);
        if (&spec == &specs[0]) split(c, spec, k, x);
        t += U(U"a") + x + U(U"1") + x + x + U(U" .") + x + U(U"\n");
      }
      split(c, spec, k, t);
    }
  }
}
CHECK_EACH(C10, each, PARTS) {
  U all = begin(c, part, "ByteLevel with and without its pattern and prefix space, and back");
  for (int way = 0; way < 3; way++) {
    J spec = J::obj({{"type", "ByteLevel"}, {"add_prefix_space", way == 1}, {"trim_offsets", false}, {"use_regex", way < 2}});
    sut::PreTokenizer k(dump(spec));
    sut::Decoder d(dump(spec));
    for (size_t i = 0; i < all.size(); i += 12) {
      U t;
      for (char32_t ch : all.substr(i, 12)) {
        U x(1, ch);
        t += U(U"a") + x + U(U"1") + x + x + U(U"  .") + x + U(U" ") + x + U(U"'s") + x;
      }
      if (way == 1) t = all.substr(i, 1) + t;
      split(c, spec, k, t);
      if (way == 1) continue;
      std::vector<std::string> toks;
      for (auto& p : k.apply(sut::PTS(t)).pieces()) toks.push_back(p.text);
      std::string back;
      for (auto& p : d.decode(toks)) back += p;
      c.check(back == utf8(t), dump(spec) + " there and back on " + show(t) + " gives " + quote(back));
    }
  }
}
CHECK_EACH(C11, each, PARTS) {
  U all = begin(c, part, "next to an added token with each flag, and as an added token itself");
  J lower = bert(false, false, false, true);
  sut::Normalizer sl(dump(lower));
  for (int flags = 0; flags < 4; flags++) {
    ATok a;
    a.content = "tok";
    a.normalized = false;
    a.single_word = flags == 0 || flags == 3;
    a.lstrip = flags == 1 || flags == 3;
    a.rstrip = flags == 2 || flags == 3;
    ref::Added ra;
    sut::AddedVocab sa;
    ra.add({a}, nullptr);
    sa.add({a}, nullptr, nullptr, false);
    for (size_t i = 0; i < all.size(); i += 12) {
      U t;
      for (char32_t ch : all.substr(i, 12)) {
        U x(1, ch);
        t += x + U(U"tok.tok") + x + U(U"a") + x + U(U" tok ") + x + U(U"tok") + x + U(U"a");
      }
      for (const U& u : {t, all.substr(i, 1) + U(U"tok"), U(U"tok") + all.substr(i, 1)}) {
        bool ambiguous = false;
        auto want = ref::pieces(ra.extract(J(), u, &ambiguous)), got = sa.extract(nullptr, u).pieces();
        c.check(got == want, dump(ref::to_json(a)) + " in " + show(u) + ": expected " + show(want) + " but got " + show(got));
      }
    }
  }
  for (size_t i = 0; i < all.size(); i += 16) {  // sixteen at a time, with and without normalization
    for (int normalized = 0; normalized < 2; normalized++) {
      std::vector<ATok> toks;
      U t = U"a";
      for (size_t k = i; k < std::min(all.size(), i + 16); k++) {
        if (is_ws(all[k]) || all[k] == 0x130) continue;
        ATok a;
        a.content = utf8(all[k]);
        a.normalized = normalized;
        toks.push_back(a);
        t += U(1, all[k]) + U(U"b") + U(1, all[k]) + U(1, all[k]);
      }
      ref::Added ra;
      sut::AddedVocab sa;
      ra.add(toks, nullptr);
      sa.add(toks, nullptr, normalized ? &sl : nullptr, false);
      bool ambiguous = false;
      auto want = ref::pieces(ra.extract(normalized ? lower : J(), t, &ambiguous));
      if (ambiguous) continue;
      auto got = sa.extract(normalized ? &sl : nullptr, t).pieces();
      c.check(got == want, (normalized ? "lower-cased " : "") + std::string("added characters in ") + show(t) + ": expected " + show(want) + " but got " + show(got));
    }
  }
}
static void words(Case& c, const J& spec, const sut::Model& k, const ref::Model& m, const U& w) {
  bool dropped = false;
  Piece want;
  want.text = utf8(w);
  want.e = w.size();
  want.toks = m.tokenize(w, &dropped);
  if (dropped) return;
  auto got = k.tokenize(sut::PTS(w)).pieces();
  c.check(got.size() == 1 && got[0] == want, "on " + show(w) + ": expected " + show({want}) + " but got " + show(got));
}
CHECK_EACH(C03, each, PARTS) {
  U all = begin(c, part, "pieces of one character in one vocabulary of all of them");
  Vocab v;
  v.tokens = {"?", "a", "##a"};
  for (char32_t ch : all)
    if (ch != 'a' && ch != '?' && ch != '#') {
      v.tokens.push_back("##" + utf8(ch));
      v.tokens.push_back(utf8(ch));
      if (ch % 2) v.tokens.push_back(utf8(ch) + "a" + utf8(ch));
    }
  J spec = J::obj({{"type", "WordPiece"}, {"unk_token", "?"}, {"continuing_subword_prefix", "##"},
                   {"max_input_chars_per_word", 4}, {"vocab", v.json()}});
  ref::Model m(spec);
  sut::Model k(dump(spec));
  for (char32_t ch : all) {
    U x(1, ch);
    for (const U& w : {x, U(U"a") + x, x + x + U(U"aa"), x + U(U"a") + x + x, x + x + x + x + x}) words(c, spec, k, m, w);
  }
  for (size_t i = 0; i < v.tokens.size(); i++) {
    c.check(k.token_to_id(v.tokens[i]) == std::optional<int>(i), "id of " + quote(v.tokens[i]));
    c.check(k.id_to_token(i) == std::optional<std::string>(v.tokens[i]), "token of " + std::to_string(i));
  }
}
CHECK_EACH(C04, each, PARTS) {
  U all = begin(c, part, "an eighth of them in the vocabulary with merges, the others as byte tokens");
  Vocab v;
  v.tokens = {"?", "a"};
  char buf[8];
  for (int b = 0; b < 256; b++) {
    snprintf(buf, sizeof buf, "<0x%02X>", b);
    v.tokens.push_back(buf);
  }
  J merges = J::arr();
  for (char32_t ch : all)
    if (ch != 'a' && ch != '?' && ch != ' ' && ch % 8 == 1) {
      std::string x = utf8(ch);
      v.tokens.push_back(x);
      v.tokens.push_back(x + x);
      v.tokens.push_back(x + x + "a");
      merges.a.push_back(J(x + " " + x));
      if (ch % 16 == 1) merges.a.push_back(J(x + x + " a"));
    }
  J spec = J::obj({{"type", "BPE"}, {"dropout", J()}, {"unk_token", "?"}, {"continuing_subword_prefix", J()},
                   {"end_of_word_suffix", J()}, {"fuse_unk", false}, {"byte_fallback", true}, {"ignore_merges", false},
                   {"vocab", v.json()}, {"merges", merges}});
  ref::Model m(spec);
  sut::Model k(dump(spec));
  for (size_t i = 0; i < all.size(); i++) {
    // in tens: merging copies the whole table for each word
    if (i % 10) continue;
    U w;
    for (char32_t ch : all.substr(i, 10)) w += U(2, ch) + U(U"a") + ch;
    words(c, spec, k, m, w);
  }
}
CHECK_EACH(C18, each, PARTS) {
  U all = begin(c, part, "in tokens, and as the prefix, pattern and content of each decoder");
  auto run = [&](const J& d, const std::vector<std::string>& t) {
    auto want = ref::decode(d, t), got = sut::Decoder(dump(d)).decode(t);
    c.check(got == want, dump(d) + " on " + show(t) + ": expected " + show(want) + " but got " + show(got));
  };
  J clean = J::obj({{"type", "WordPiece"}, {"prefix", "##"}, {"cleanup", true}}), fuse = norm_of("Fuse"), bytes = norm_of("ByteFallback");
  char buf[8];
  for (char32_t ch : all) {
    std::string x = utf8(ch);
    run(clean, {x, "##" + x, x + " n't", " ."});
    run(fuse, {x, "a", x});
    std::vector<std::string> t = {"a"};
    for (unsigned char b : x) {
      snprintf(buf, sizeof buf, "<0x%02X>", b);
      t.push_back(buf);
    }
    t.push_back(x);
    run(bytes, t);
    run(J::obj({{"type", "WordPiece"}, {"prefix", x}, {"cleanup", false}}), {x, x + x + "a", "a" + x});
    run(J::obj({{"type", "Replace"}, {"pattern", J::obj({{"String", x}})}, {"content", "-"}}), {x + "a" + x, ".*", x});
    run(J::obj({{"type", "Replace"}, {"pattern", J::obj({{"String", "a"}})}, {"content", x}}), {x + "a" + x, ".*", "a"});
    run(J::obj({{"type", "Strip"}, {"content", x}, {"start", 1}, {"stop", 2}}), {x + x + "a" + x + x + x, x, "a" + x});
  }
}
CHECK_EACH(C20, each, PARTS) {
  U all = begin(c, part, "there and back through a byte-level tokenizer");
  Vocab v;
  for (auto& x : ref::byte_chars()) v.tokens.push_back(x);
  J merges = J::arr();
  for (int b = 0x80; b < 0x100; b += 3) {
    std::string x = ref::byte_chars()[0xc2 + b % 0x32], y = ref::byte_chars()[0x80 + b % 0x40];
    bool have = std::find(v.tokens.begin(), v.tokens.end(), x + y) != v.tokens.end();
    if (have) continue;
    v.tokens.push_back(x + y);
    merges.a.push_back(J(x + " " + y));
  }
  J bl = J::obj({{"type", "ByteLevel"}, {"add_prefix_space", false}, {"trim_offsets", true}, {"use_regex", true}});
  J cfg = J::obj({{"version", "1.0"}, {"truncation", J()}, {"padding", J()}, {"added_tokens", J()}, {"normalizer", J()},
                  {"pre_tokenizer", bl}, {"post_processor", bl}, {"decoder", bl},
                  {"model", J::obj({{"type", "BPE"}, {"dropout", J()}, {"unk_token", J()}, {"continuing_subword_prefix", J()},
                                    {"end_of_word_suffix", J()}, {"fuse_unk", false}, {"byte_fallback", false},
                                    {"ignore_merges", false}, {"vocab", v.json()}, {"merges", merges}})}});
  sut::Tokenizer k(dump(cfg));
  for (size_t i = 0; i < all.size(); i += 12) {
    U u;
    for (char32_t ch : all.substr(i, 12)) u += U(U"a ") + U(2, ch) + U(U" b") + ch + U(U"\n") + ch;
    for (const U& t : {all.substr(i, 1), all.substr(i, 12), u}) {
      std::string got = k.decode(k.encode(t).ids);
      c.check(got == utf8(t), show(t) + " comes back as " + quote(got));
    }
  }
}
// every character, raw and escaped in JSON
CHECK_EACH(C22, each, PARTS) {
  U all = begin(c, part, "as a key of the vocabulary, raw, escaped and escaped in upper case");
  for (int way = 0; way < 3; way++) {
    std::string vocab = "{\"?\": 0";
    int id = 1;
    char buf[32];
    for (char32_t ch : all) {
      if (ch == '?') continue;
      std::string x;
      if (way == 0) {
        x = dump(J(utf8(ch)));
      } else {
        const char* f = way == 1 ? "\\u%04x" : "\\u%04X";
        if (ch < 0x10000) {
          snprintf(buf, sizeof buf, f, (unsigned)ch);
          x = buf;
        } else {
          snprintf(buf, sizeof buf, f, (unsigned)(0xd800 + ((ch - 0x10000) >> 10)));
          x = buf;
          snprintf(buf, sizeof buf, f, (unsigned)(0xdc00 + ((ch - 0x10000) & 0x3ff)));
          x += buf;
        }
        x = "\"" + x + "\"";
      }
      vocab += ", " + x + ": " + std::to_string(id++);
    }
    sut::Model k("{\"type\": \"WordPiece\", \"unk_token\": \"?\", \"continuing_subword_prefix\": \"##\", \"max_input_chars_per_word\": 100, \"vocab\": " + vocab + "}}");
    id = 1;
    for (char32_t ch : all) {
      if (ch == '?') continue;
      c.check(k.token_to_id(utf8(ch)) == std::optional<int>(id) && k.id_to_token(id) == std::optional<std::string>(utf8(ch)),
              "vocabulary entry " + show(U(1, ch)) + (way ? " escaped" : " raw") + " has no id " + std::to_string(id));
      id++;
    }
    c.check(k.vocab_size() == id, "the vocabulary has " + std::to_string(k.vocab_size()) + " entries, not " + std::to_string(id));
  }
}
// every scalar value, assigned or not
CHECK_EACH(C25, each_character, 64) {
  char32_t b = 0x110000 / 64 * part, e = 0x110000 / 64 * (part + 1);
  char buf[64];
  snprintf(buf, sizeof buf, "every scalar value from U+%04X to U+%04X", (unsigned)b, (unsigned)e - 1);
  c.describe(buf);
  c.nontrivial = true;
  for (char32_t ch = b; ch < e; ch++) {
    if (ch >= 0xd800 && ch < 0xe000) continue;
    U t = {U'a', ch, ch};
    std::string want = utf8(t);
    c.check(sut::to_utf8(t) == want, "to UTF-8: " + show(t));
    U back = sut::from_utf8(want);
    c.check(back == t, "from UTF-8: " + show(t) + " gives " + show(back));
  }
}
// all byte pairs, and all sequences of three and four from the bytes at which
// the rules change
CHECK_EACH(C25, each_bytes, 64) {
  static const unsigned char edge[] = {0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf8, 0xfe, 0xff};
  const int n = sizeof edge;
  c.describe("byte sequences of two to four bytes beginning with " + std::to_string(part * 4) + " to " + std::to_string(part * 4 + 3));
  c.nontrivial = true;
  auto judge = [&](const std::string& b) {
    for (size_t i = 0; i + 1 < b.size(); i++)
      if ((unsigned char)b[i] == 0xed && (unsigned char)b[i + 1] >= 0xa0 && (unsigned char)b[i + 1] <= 0xbf) return;
    U want, got;
    bool valid = utf8_valid(b, &want), threw = false;
    try {
      got = sut::from_utf8(b);
    } catch (const std::exception&) {
      threw = true;
    }
    c.check(valid != threw && (threw || got == want), "bytes " + [&] {
      std::string hex;
      char buf[4];
      for (unsigned char x : b) {
        snprintf(buf, sizeof buf, "%02x ", x);
        hex += buf;
      }
      return hex;
    }() + (valid ? "are valid but " : "are not valid but ") + (threw ? "rejected" : "give " + show(got)));
  };
  for (int first = part * 4; first < part * 4 + 4; first++) {
    std::string b(1, (char)first);
    judge(b);
    for (int x = 0; x < 256; x++) judge(b + (char)x);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) {
        std::string t = b + (char)edge[i] + (char)edge[j];
        judge(t);
        // exceptions are slow: fewer fourth bytes where the start is bad already
        U u;
        bool prefix = first >= 0xf0 && (edge[i] & 0xc0) == 0x80 && (edge[j] & 0xc0) == 0x80;
        for (int k = 0; k < n; k += prefix ? 1 : 9) judge(t + (char)edge[k]);
      }
  }
}
