// C18, C19, C20, C25: decoding and conversions.
#include <algorithm>

#include "gen.h"

static std::string joined(const std::vector<std::string>& t) {
  std::string r;
  for (auto& x : t) r += x;
  return r;
}

PROPERTY(C18, 400000,
         "a list of up to 40 tokens made for the decoder at hand (continuation prefixes, the "
         "clean-up patterns and near misses, byte tokens of valid and broken UTF-8 and near "
         "misses, the strip character, the pattern) through one decoder or a Sequence; compared "
         "with the direct definition. Non-trivial: the decoder changes the list")
static std::string byte_token(int b) {
  char buf[8];
  snprintf(buf, sizeof buf, "<0x%02X>", b);
  return buf;
}
static std::vector<std::string> gen_tokens(Src& s, const J& d) {
  std::vector<std::string> r, special;
  std::string text = dump(d);
  if (text.find("WordPiece") != std::string::npos)
    special = {"##ing", "##", "##s", ".", "?", "!", ",", "'", "n't", "'m", "do", "not", "do not",
               "'s", "'ve", "'re", "a", "##.", " .", "...", "it", "#", "@@x", "▁a", "'t", "' ", "don't", " do not do not", "x 's y"};
  if (text.find("ByteFallback") != std::string::npos || s.chance(1, 10))
    for (const char* x : {"<0x>", "<0xGG>", "<0xG1>", "<0x1G>", "<0x 9>", "<0x9 >", "<0x+9>", "<0x-9>", "<0xx1>", "<0x1>", "0x41", "<0x41", "<0x041>", "a<0x41>", "<0x41>a", "<<0x41>", "<0X41>"}) special.push_back(x);
  bool bytes = text.find("ByteFallback") != std::string::npos;
  std::vector<std::string> strings = {" ", "▁", "a", "é", "😀", "\n"};
  for (const std::string& k : {std::string("content"), std::string("prefix")})
    if (!d[k].str().empty()) strings.push_back(d[k].str());
  if (!d["pattern"]["String"].str().empty()) strings.push_back(d["pattern"]["String"].str());
  int n = s.size_upto(40);
  for (int i = 0; i < n; i++) {
    if (bytes && s.coin()) {
      if (s.coin()) {
        std::string u = utf8(gen_char(s));
        if (s.chance(1, 6)) u.pop_back();
        for (unsigned char b : u) r.push_back(byte_token(b));
      } else {
        r.push_back(byte_token(s.draw(256)));
      }
      continue;
    }
    if (!special.empty() && s.coin()) {
      r.push_back(s.pick(special));
      continue;
    }
    std::string t;
    for (int k = s.range(0, 4); k > 0; k--) t += s.coin() ? s.pick(strings) : utf8(gen_word(s, 3));
    r.push_back(t);
  }
  return r;
}
CHECK_CASE(C18, decoders, 1) {
  J d = gen_decoder(c.s, 1);
  auto t = gen_tokens(c.s, d);
  c.describe(dump(d) + " on " + show(t));
  sut::Decoder k(dump(d));
  auto want = ref::decode(d, t), got = k.decode(t);
  c.label(d["type"].str());
  c.nontrivial = want != t;
  // how a result is cut is the decoder's business only where it says so
  if (d["type"].str() == "ByteLevel")
    c.check(joined(got) == joined(want), "expected " + quote(joined(want)) + " but got " + show(got));
  else if (dump(d).find("ByteLevel") == std::string::npos)
    c.check(got == want, "expected " + show(want) + " but got " + show(got));
  else
    c.check(joined(got) == joined(want), "expected " + quote(joined(want)) + " but got " + show(got));
}
// up to 66000 tokens, tokens of up to 66000 bytes, long runs of byte tokens
CHECK_RARE(C18, large, 1000) {
  J d = gen_decoder(c.s, 1);
  std::vector<std::string> base, t;
  for (int k = c.s.range(1, 4); k > 0; k--)
    for (auto& x : gen_tokens(c.s, d)) base.push_back(x);
  if (base.empty()) base.push_back("a");
  int way = c.s.draw(4);
  if (way == 0) {  // one long token among others
    t = base;
    int n = big_size(c.s, 66000);
    std::string x;
    std::string y = c.s.pick(base), z = c.s.coin() ? "a" : utf8(gen_unit(c.s));
    if (y.empty()) y = "ab";
    while ((int)x.size() < n) x += c.s.chance(1, 2) ? y : z + y;
    t.insert(t.begin() + c.s.draw(t.size() + 1), x);
  } else if (way == 1) {  // a long run of byte tokens
    int n = big_size(c.s, 33000);
    std::string bytes, one = utf8(gen_char(c.s)), two = utf8(gen_char(c.s));
    Lcg next(c.s.draw(1 << 16));
    while ((int)bytes.size() < n) bytes += next(2) ? one : two;
    if (c.s.coin()) bytes[c.s.draw(bytes.size())] = (char)c.s.draw(256);
    if (c.s.coin()) bytes.pop_back();
    if (c.s.coin()) t = base;
    for (unsigned char b : bytes) t.push_back(byte_token(b));
    t.insert(t.end(), base.begin(), base.end());
  } else {
    int n = big_size(c.s, 66000);
    Lcg next(c.s.draw(1 << 16));
    while ((int)t.size() < n) t.push_back(base[next(base.size())]);
  }
  c.describe(dump(d) + " on " + std::to_string(t.size()) + " tokens: " + show(std::vector<std::string>(t.begin(), t.begin() + std::min<size_t>(t.size(), 60))));
  sut::Decoder k(dump(d));
  auto want = ref::decode(d, t), got = k.decode(t);
  c.label("large " + d["type"].str());
  c.nontrivial = want != t;
  std::string a = joined(want), b = joined(got);
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  auto near = [&](const std::string& x) { return quote(x.substr(i < 20 ? 0 : i - 20, 60)); };
  c.check(a == b, "at byte " + std::to_string(i) + " expected " + near(a) + " but got " + near(b) + " (of " + std::to_string(a.size()) + " and " + std::to_string(b.size()) + ")");
  if (dump(d).find("ByteLevel") == std::string::npos) c.check(got == want, "cut in other places: " + std::to_string(want.size()) + " and " + std::to_string(got.size()));
}

PROPERTY(C19, 80000,
         "a tokenizer (any model or none, added tokens from the configuration and added later, "
         "special or not, any decoder or none) decoding lists of up to 60 ids: known, added, "
         "special, repeated, unknown, negative, huge; with and without skipping special tokens; "
         "compared with looking each id up and running the reference decoder. Non-trivial: "
         "some id is an added token's, or unknown, among known ones")
static void decode_ids(Case& c, bool big) {
  TokOpts o;
  o.allow_trunc = o.allow_pad = o.allow_post = o.allow_norm = o.allow_pre = false;
  Config cfg = gen_config(c.s, o);
  if (big) enlarge(c.s, cfg);
  // a token without text counts as a token all the same
  for (auto& f : cfg.json.o)
    if (f.first == "model" && f.second.kind == J::OBJ && c.s.chance(1, 4))
      for (auto& g : f.second.o)
        if (g.first == "vocab" && g.second.kind == J::OBJ && g.second[""].kind == J::NUL) {
          g.second.o.push_back({"", J(static_cast<int>(g.second.o.size()) + 5000)});
          c.label("empty token");
        }
  // an id in the vocabulary may be one that an added token gets
  for (auto& f : cfg.json.o)
    if (f.first == "model" && f.second.kind == J::OBJ && c.s.chance(1, 4))
      for (auto& g : f.second.o)
        if (g.first == "vocab" && g.second.kind == J::OBJ && !g.second.o.empty()) {
          size_t i = c.s.draw(g.second.o.size());
          g.second.o[i].second = J(static_cast<int>(g.second.o.size() + c.s.draw(3)));
          c.label("shared id");
        }
  ref::Tokenizer m(cfg.json);
  sut::Tokenizer k(dump(cfg.json));
  std::string desc = dump(cfg.json);
  if (c.s.chance(1, 3)) {
    AddedOpts ao;
    auto t = gen_added(c.s, cfg.hints, ao);
    desc += " then adding";
    for (auto& x : t) desc += " " + dump(ref::to_json(x));
    m.add_tokens(t);
    k.add_tokens(t);
  }
  std::vector<int> known;
  if (m.model)
    for (auto& p : m.model->rev) known.push_back(p.first);
  std::sort(known.begin(), known.end());
  std::vector<int> added;
  for (auto& p : m.added.by_id) added.push_back(p.first);
  for (int round = c.s.range(1, 3); round > 0; round--) {
    std::vector<int> ids;
    bool odd = false, plain = false;
    for (int n = c.s.size_upto(60); n > 0; n--) {
      switch (c.s.weighted({6, 5, 2})) {
        case 0: if (!known.empty()) { ids.push_back(c.s.pick(known)); plain = true; } break;
        case 1: if (!added.empty()) { ids.push_back(c.s.pick(added)); odd = true; } break;
        default: {
          static const int weird[] = {-1, 1000000, 2147483647, -2147483647 - 1, 999, 12345, 300, 301};
          ids.push_back(weird[c.s.draw(8)]);
          odd = true;
        }
      }
    }
    if (big && !ids.empty()) {
      std::vector<int> more;
      Lcg next(c.s.draw(1 << 16));
      int n = big_size(c.s, 33000);
      while ((int)more.size() < n) {
        int which = next(8);
        more.push_back(which == 0 && !known.empty() ? known[next(known.size())] : which == 1 && !added.empty() ? added[next(added.size())] : ids[next(ids.size())]);
      }
      ids = more;
    }
    bool skip = c.s.coin();
    std::string d = desc + (skip ? " decode skipping special " : " decode ");
    for (size_t i = 0; i < ids.size() && i < 200; i++) d += std::to_string(ids[i]) + " ";
    if (ids.size() > 200) d += "... " + std::to_string(ids.size()) + " ids";
    c.describe(d);
    if (odd && plain) c.nontrivial = true;
    std::string want = m.decode(ids, skip), got = k.decode(ids, skip);
    c.check(got == want, "expected " + quote(want) + " but got " + quote(got));
  }
}
CHECK_CASE(C19, ids, 1) { decode_ids(c, false); }
CHECK_RARE(C19, ids_large, 120) { decode_ids(c, true); }

PROPERTY(C20, 24000,
         "byte-level BPE tokenizers with the whole byte alphabet, random merges and added tokens "
         "(without white-space stripping), on any text: decode(encode(text)) is the text; BERT "
         "tokenizers with the characters of the text in their vocabulary: decode gives the "
         "normalized words joined by spaces. Non-trivial: the text is longer than three "
         "characters and some token has several bytes or characters")
static void bytes_back(Case& c, bool big) {
  Vocab v;
  BpeOpts bo;
  bo.byte_level = bo.full_bytes = true;
  J model = gen_bpe(c.s, v, bo);
  std::vector<U> hints;
  for (auto& w : v.words) {
    std::string bytes;
    for (char32_t ch : w)
      for (int b = 0; b < 256; b++)
        if (utf8(ch) == ref::byte_chars()[b]) bytes += static_cast<char>(b);
    U t;
    if (utf8_valid(bytes, &t)) hints.push_back(t);
  }
  J added;
  if (c.s.chance(2, 3)) {
    added = J::arr();
    for (auto t : gen_added(c.s, {}, AddedOpts())) {
      t.lstrip = t.rstrip = false;
      // a text that reads as byte characters itself is decoded as bytes
      bool all = true, ascii = true;
      for (char32_t ch : utf8_decode(t.content)) {
        ascii = ascii && ch < 128;
        bool in = false;
        for (auto& b : ref::byte_chars()) in = in || b == utf8(ch);
        all = all && in;
      }
      if (all && !ascii) continue;
      added.a.push_back(ref::to_json(t));
      hints.push_back(utf8_decode(t.content));
      hints.push_back(U(U"a") + utf8_decode(t.content));
    }
  }
  J bl = J::obj({{"type", "ByteLevel"}, {"add_prefix_space", false}, {"trim_offsets", c.s.coin()}, {"use_regex", c.s.chance(3, 4)}});
  J cfg = J::obj({{"version", "1.0"}, {"truncation", J()}, {"padding", J()}, {"added_tokens", added},
                  {"normalizer", J()}, {"pre_tokenizer", bl}, {"post_processor", c.s.coin() ? bl : J()},
                  {"decoder", bl}, {"model", model}});
  sut::Tokenizer k(dump(cfg));
  TextOpts to;
  to.hints = hints;
  for (int round = c.s.range(1, 4); round > 0; round--) {
    U t = big ? gen_big_text(c.s, to, 4200) : gen_text(c.s, to);
    c.describe(dump(cfg) + " there and back on " + show(t));
    Enc e = k.encode(t, true);
    if (t.size() > 3 && e.ids.size() < utf8(t).size()) c.nontrivial = true;
    std::string got = k.decode(e.ids, false);
    c.check(got == utf8(t), "gives " + quote(got) + " expected " + quote(utf8(t)));
    if (added.a.empty()) {
      got = k.decode(e.ids, true);
      c.check(got == utf8(t), "gives " + quote(got) + " expected " + quote(utf8(t)));
    }
  }
}
CHECK_CASE(C20, bytes, 3) { bytes_back(c, false); }
CHECK_RARE(C20, bytes_large, 150) { bytes_back(c, true); }
// tokens of thousands of bytes
CHECK_RARE(C20, long_tokens, 40) {
  std::string x = c.s.pick(std::vector<std::string>{"a", "é", "世", "😀", " ", "\n"});
  std::string unit = ref::to_byte_chars(x);
  J vocab = J::obj(), merges = J::arr();
  for (auto& b : ref::byte_chars()) vocab.o.push_back({b, J((int)vocab.o.size())});
  U u = utf8_decode(unit);
  for (size_t i = 1; i < u.size(); i++) {
    merges.a.push_back(J(utf8(u.substr(0, i)) + " " + utf8(u.substr(i, 1))));
    vocab.o.push_back({utf8(u.substr(0, i + 1)), J((int)vocab.o.size())});
  }
  int levels = c.s.range(8, 14);
  for (int l = 0; l < levels; l++) {
    std::string half;
    for (int i = 0; i < 1 << l; i++) half += unit;
    merges.a.push_back(J(half + " " + half));
    vocab.o.push_back({half + half, J((int)vocab.o.size())});
  }
  J bl = J::obj({{"type", "ByteLevel"}, {"add_prefix_space", false}, {"trim_offsets", false}, {"use_regex", false}});
  J model = J::obj({{"type", "BPE"}, {"dropout", J()}, {"unk_token", J()}, {"continuing_subword_prefix", J()},
                    {"end_of_word_suffix", J()}, {"fuse_unk", false}, {"byte_fallback", false}, {"ignore_merges", c.s.coin()},
                    {"vocab", vocab}, {"merges", merges}});
  J cfg = J::obj({{"version", "1.0"}, {"truncation", J()}, {"padding", J()}, {"added_tokens", J()}, {"normalizer", J()},
                  {"pre_tokenizer", bl}, {"post_processor", J()}, {"decoder", bl}, {"model", model}});
  int n = (1 << levels) * c.s.range(1, 2) + c.s.range(0, 9);
  std::string t;
  for (int i = 0; i < n; i++) t += x;
  if (c.s.coin()) t += "b" + x;
  c.describe("byte-level tokens of up to " + std::to_string(1 << levels) + " " + quote(x) + ", there and back on " + std::to_string(n) + " of them");
  sut::Tokenizer k(dump(cfg));
  Enc e = k.encode(utf8_decode(t), true);
  c.nontrivial = e.ids.size() < 40;
  std::string got = k.decode(e.ids, false);
  c.check(got == t, "gives " + std::to_string(got.size()) + " bytes, or others, beginning " + quote(got.substr(0, 60)) + " in place of " + std::to_string(t.size()));
}
static void bert_back(Case& c, bool big) {
  J norm = J::obj({{"type", "BertNormalizer"}, {"clean_text", true}, {"handle_chinese_chars", c.s.coin()},
                   {"strip_accents", J()}, {"lowercase", c.s.coin()}});
  if (c.s.chance(1, 6)) norm = J();
  J pre = J::obj({{"type", "BertPreTokenizer"}});
  TextOpts to;
  to.dense_max = 1100;
  U t = big ? gen_big_text(c.s, to, 4200) : gen_text(c.s, to);
  // matching takes cubic time in the length of a word
  for (size_t i = 0, run = 0; big && i < t.size(); i++)
    if (++run > 250 || is_ws(t[i])) run = 0, t[i] = U' ';
  if (!norm.null() && !norm["lowercase"].flag())
    for (auto& ch : t)
      if (ch == 0x130) ch = 'I';
  auto p = ref::pre_tokenize(pre, ref::whole(ref::normalize(norm, ref::original(t))));
  std::vector<std::string> words, toks = {"[UNK]"};
  std::set<std::string> seen;
  auto add = [&](const std::string& x) {
    if (seen.insert(x).second) toks.push_back(x);
  };
  for (auto& x : ref::pieces(p)) {
    words.push_back(x.text);
    U w = utf8_decode(x.text);
    for (char32_t ch : w) {
      add(utf8(ch));
      add("##" + utf8(ch));
    }
    if (w.size() > 1 && c.s.coin()) {
      size_t b = c.s.draw(w.size()), n = c.s.range(1, 4);
      add((b || c.s.coin() ? "##" : "") + utf8(w.substr(b, n)));
      add(utf8(w.substr(0, n)));
    }
  }
  c.s.shuffle(toks);
  Vocab v;
  v.tokens = toks;
  J model = J::obj({{"type", "WordPiece"}, {"unk_token", "[UNK]"}, {"continuing_subword_prefix", "##"},
                    {"max_input_chars_per_word", 5000}, {"vocab", v.json()}});
  J cfg = J::obj({{"version", "1.0"}, {"truncation", J()}, {"padding", J()}, {"added_tokens", c.s.coin() ? J() : J::arr()},
                  {"normalizer", norm}, {"pre_tokenizer", pre}, {"post_processor", J()},
                  {"decoder", J::obj({{"type", "WordPiece"}, {"prefix", "##"}, {"cleanup", false}})}, {"model", model}});
  c.describe(dump(cfg) + " there and back on " + show(t));
  sut::Tokenizer k(dump(cfg));
  Enc e = k.encode(t, true);
  std::string got = k.decode(e.ids, true), want;
  for (auto& w : words) want += (want.empty() ? "" : " ") + w;
  c.nontrivial = t.size() > 3 && e.ids.size() > words.size();
  c.check(got == want, "gives " + quote(got) + " expected " + quote(want));
}
CHECK_CASE(C20, bert, 2) { bert_back(c, false); }
CHECK_RARE(C20, bert_large, 80) { bert_back(c, true); }

PROPERTY(C25, 1200000,
         "strings of any Unicode characters to UTF-8 and back, and byte strings: valid ones, "
         "valid ones with a byte changed, dropped, inserted or cut off, and assembled from lead "
         "and trail bytes, overlong forms and values beyond U+10FFFF; compared with an own "
         "codec (encoded surrogates are left open). Non-trivial: some multi-byte sequence")
static void strings(Case& c, bool big) {
  U t = big ? gen_big_text(c.s, TextOpts(), 66000) : gen_text(c.s, TextOpts());
  if (c.s.chance(1, 4))
    for (int n = c.s.range(1, 20); n > 0; n--) {
      static const char32_t edge[] = {0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0xfdd0, 0x1fffe, 0xfffff, 0x100000};
      t.insert(c.s.draw(t.size() + 1), 1, edge[c.s.draw(16)]);
    }
  c.describe("convert " + show(t));
  std::string want = utf8(t), got = sut::to_utf8(t);
  c.nontrivial = want.size() != t.size();
  c.check(got == want, "to UTF-8 gives " + quote(got) + " expected " + quote(want));
  U back = sut::from_utf8(want);
  c.check(back == t, "from UTF-8 gives " + show(back) + " expected " + show(t));
}
CHECK_CASE(C25, strings, 3) { strings(c, false); }
CHECK_RARE(C25, strings_large, 1000) { strings(c, true); }
static void bytes(Case& c, bool big) {
  std::string b;
  if (big || c.s.coin()) {
    b = utf8(big ? gen_big_text(c.s, TextOpts(), 66000) : gen_text(c.s, TextOpts()));
    for (int k = c.s.range(0, 2); k > 0; k--) {
      size_t at = b.empty() ? 0 : c.s.draw(b.size());
      switch (c.s.draw(4)) {
        case 0: if (!b.empty()) b[at] = static_cast<char>(c.s.draw(256)); break;
        case 1: if (!b.empty()) b.erase(at, 1); break;
        case 2: b.insert(at, 1, static_cast<char>(c.s.draw(256))); break;
        default: b.resize(at);
      }
    }
  } else {
    static const unsigned char parts[] = {0x00, 0x41, 0x7f, 0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xf7, 0xf8, 0xfc, 0xff, 0x8f, 0x90, 0x9f, 0xa0};
    for (int n = c.s.range(1, 8); n > 0; n--) b += static_cast<char>(parts[c.s.draw(26)]);
  }
  std::string hex;
  char buf[4];
  for (unsigned char x : b.substr(0, 3000)) {
    snprintf(buf, sizeof buf, "%02x ", x);
    hex += buf;
  }
  c.describe("bytes " + hex);
  for (unsigned char x : b)
    if (x >= 0x80) c.nontrivial = true;
  // encoded surrogates
  for (size_t i = 0; i + 1 < b.size(); i++)
    if ((unsigned char)b[i] == 0xed && (unsigned char)b[i + 1] >= 0xa0 && (unsigned char)b[i + 1] <= 0xbf)
      c.exclude("encoded surrogate");
  U want;
  bool valid = utf8_valid(b, &want), threw = false;
  U got;
  try {
    got = sut::from_utf8(b);
  } catch (const std::exception&) {
    threw = true;
  }
  c.label(valid ? "valid" : "malformed");
  c.check(!(valid && threw), "valid UTF-8 is rejected");
  c.check(valid || threw, "malformed UTF-8 is accepted as " + show(got));
  if (valid) c.check(got == want, "gives " + show(got) + " expected " + show(want));
}
CHECK_CASE(C25, bytes, 5) { bytes(c, false); }
CHECK_RARE(C25, bytes_large, 1000) { bytes(c, true); }
