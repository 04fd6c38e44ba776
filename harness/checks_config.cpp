// C22, C23: configurations written in other ways, and broken ones.
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <stdexcept>

#include "gen.h"

static std::string my_dir() {
  std::string d = scratch_dir() + "/d" + std::to_string(getpid());
  mkdir(d.c_str(), 0755);
  return d;
}
static void write_file(const std::string& path, const std::string& data) {
  std::ofstream f(path, std::ios::binary | std::ios::trunc);
  f << data;
}
static std::string behaviour(sut::Tokenizer& k, const U& t, bool add, Enc* enc) {
  try {
    *enc = k.encode(t, add);
    return show(*enc);
  } catch (const std::exception& e) {
    return std::string("exception ") + e.what();
  }
}
static void same_behaviour(Case& c, sut::Tokenizer& a, sut::Tokenizer& b, const std::vector<U>& texts,
                           const std::string& what) {
  for (auto& t : texts) {
    bool add = c.s.coin();
    Enc x, y;
    std::string p = behaviour(a, t, add, &x), q = behaviour(b, t, add, &y);
    if (p != q) c.fail(what + " differ on " + show(t) + ": " + p + " and " + q + (x.ids.empty() && y.ids.empty() ? "" : " (" + diff(x, y) + ")"));
    for (bool skip : {true, false}) {
      std::vector<int> ids = x.ids;
      if (c.s.coin())
        for (int k = c.s.range(1, 6); k > 0; k--) ids.push_back(c.s.range(0, 60));
      std::string d = a.decode(ids, skip), e = b.decode(ids, skip);
      if (d != e) c.fail(what + " decode differently: " + quote(d) + " and " + quote(e));
    }
  }
}
static bool escaped_key(const std::string& text) {
  bool in = false, esc = false;
  for (size_t i = 0; i < text.size(); i++) {
    if (!in) {
      if (text[i] == '"') {
        in = true;
        esc = false;
      }
    } else if (text[i] == '\\') {
      esc = true;
      i++;
    } else if (text[i] == '"') {
      in = false;
      size_t k = i + 1;
      while (k < text.size() && strchr(" \n\r\t", text[k])) k++;
      if (esc && k < text.size() && text[k] == ':') return true;
    }
  }
  return false;
}
// strange entries: characters that JSON escapes, in keys and in merges
static void spice(Src& s, J& cfg, std::vector<U>& hints) {
  J model = cfg["model"];
  if (model.null()) return;
  static const std::vector<std::string> odd = {"\"", "\\", "\\n", "\n", "\t", "/", "\x01", "\x7f", "\b", "\f", "\r", "é", "😀",
                                               "\\u0041", "a\"b", "\xef\xbf\xbd", "\xe2\x80\xa8", "##\"", "</w>", "\\\\", "'", "{", "}", ":", ",", "[", "]"};
  J v = model["vocab"];
  int id = 0;
  std::set<std::string> have;
  for (auto& p : v.o) {
    id = std::max<int>(id, p.second.i + 1);
    have.insert(p.first);
  }
  bool wp = model["type"].str() == "WordPiece";
  std::string prefix = model["continuing_subword_prefix"].str(), suffix = model["end_of_word_suffix"].str();
  std::vector<std::string> mine;
  for (int n = s.range(0, 5); n > 0; n--) {
    std::string t = s.pick(odd);
    if (s.chance(1, 3)) t += s.pick(odd);
    if (wp && s.chance(1, 3)) t = prefix + t;
    if (!have.insert(t).second) continue;
    v.o.push_back({t, J(id++)});
    hints.push_back(utf8_decode(t));
    mine.push_back(t);
  }
  // merges of them
  if (!wp && prefix.empty() && suffix.empty() && model["merges"].kind == J::ARR && !mine.empty()) {
    J merges = model["merges"];
    std::set<std::string> seen;
    for (auto& m : merges.a) seen.insert(m.s);
    for (int n = s.range(0, 4); n > 0; n--) {
      std::string a = s.pick(mine), b = s.pick(mine);
      if (a.size() + b.size() > 30 || !seen.insert(a + " " + b).second) continue;
      merges.a.insert(merges.a.begin() + s.draw(merges.a.size() + 1), J(a + " " + b));
      hints.push_back(utf8_decode(a + b));
      if (!have.insert(a + b).second) continue;
      v.o.push_back({a + b, J(id++)});
      mine.push_back(a + b);
    }
    model.set("merges", merges);
  }
  model.set("vocab", v);
  cfg.set("model", model);
}

PROPERTY(C22, 30000,
         "configurations of all families with vocabulary entries, merges, added tokens and "
         "template names full of characters that JSON escapes, written plainly and re-written "
         "with other escapes, key order and white space; encodings and decodings of probe texts "
         "compared, every vocabulary entry looked up both ways, options given as null compared "
         "with their default, a file compared with the string, encoding and decoding compared with "
         "the reference tokenizer of the JSON value. Non-trivial: the rewritten text "
         "has an escape in a key, an option is null, or the configuration comes from a file")
static void respelled(Case& c, bool big) {
  Config cfg = gen_config(c.s);
  if (big) enlarge(c.s, cfg);
  spice(c.s, cfg.json, cfg.hints);
  std::string a = dump(cfg.json), b = dump_random(cfg.json, c.s);
  std::vector<U> texts;
  for (int k = c.s.range(1, 3); k > 0; k--) texts.push_back(big ? gen_big_text_for(c.s, cfg, 530) : gen_text_for(c.s, cfg, 20));
  c.describe(a + " and " + b);
  c.nontrivial = escaped_key(b);
  sut::Tokenizer x(a), y(b);
  same_behaviour(c, x, y, texts, "two spellings of one configuration");
}
CHECK_CASE(C22, respelled, 5) { respelled(c, false); }
CHECK_RARE(C22, respelled_large, 60) { respelled(c, true); }
static void from_file(Case& c, bool big) {
  Config cfg = gen_config(c.s);
  if (big) enlarge(c.s, cfg);
  spice(c.s, cfg.json, cfg.hints);
  std::string a = c.s.coin() ? dump(cfg.json) : dump_random(cfg.json, c.s);
  std::vector<U> texts = {gen_text_for(c.s, cfg, 20)};
  std::string dir = my_dir();
  write_file(dir + "/tokenizer.json", a);
  c.describe("file and string: " + a);
  c.nontrivial = true;
  sut::Tokenizer x(a);
  sut::Tokenizer y(dir, std::string());
  same_behaviour(c, x, y, texts, "the file and the string");
}
CHECK_CASE(C22, from_file, 2) { from_file(c, false); }
CHECK_RARE(C22, from_file_large, 60) { from_file(c, true); }
static void model_values(Case& c, bool big) {
  Vocab v;
  J cfg = J::obj();
  bool wp = c.s.coin();
  BpeOpts bo;
  bo.byte_level = c.s.chance(1, 3);
  cfg.set("model", wp ? gen_wordpiece(c.s, v) : gen_bpe(c.s, v, bo));
  std::vector<U> hints;
  spice(c.s, cfg, hints);
  J spec = cfg["model"];
  if (big) {  // many entries, ids that are far apart
    J vocab = spec["vocab"];
    std::set<std::string> have;
    for (auto& p : vocab.o) have.insert(p.first);
    int n = c.s.chance(1, 4) ? 70000 : c.s.range(100, 5000), way = c.s.draw(3), id = vocab.o.size();
    for (int i = 0; i < n; i++) {
      std::string t = utf8(filler(i));
      if (have.insert(t).second) vocab.o.push_back({t, J(way == 0 ? id++ : way == 1 ? 2147483647 - i : 60000 + i * 30000 % 1999999999)});
    }
    std::set<int> ids;
    J distinct = J::obj();
    for (auto& p : vocab.o)
      if (ids.insert(p.second.num()).second) distinct.o.push_back(p);
    spec.set("vocab", distinct);
    cfg.set("model", spec);
    for (int k = 0; k < 3; k++) hints.push_back(filler(c.s.draw(n)));
  }
  std::string text = dump_random(spec, c.s, true);
  c.describe(text);
  c.nontrivial = escaped_key(text);
  sut::Model m(text);
  const J& vocab = spec["vocab"];
  c.check(m.vocab_size() == (int)vocab.o.size(), "vocabulary of " + std::to_string(vocab.o.size()) + " entries has size " + std::to_string(m.vocab_size()));
  for (auto& p : vocab.o) {
    auto id = m.token_to_id(p.first);
    c.check(id && *id == p.second.i, "the id of " + quote(p.first) + " is " + (id ? std::to_string(*id) : "missing") + ", not " + std::to_string(p.second.i));
    auto t = m.id_to_token(p.second.i);
    c.check(t && *t == p.first, "the token of " + std::to_string(p.second.i) + " is " + (t ? quote(*t) : "missing") + ", not " + quote(p.first));
  }
  ref::Model rm(spec);
  for (int k = 0; k < 3 && !hints.empty(); k++) {
    U w = c.s.pick(hints);
    if (c.s.coin()) w += c.s.pick(hints);
    if (w.empty()) continue;
    Piece p;
    p.text = utf8(w);
    p.s = 0;
    p.e = w.size();
    sut::PTS x(w);
    x.set_pieces({p});
    bool dropped = false;
    auto want = rm.tokenize(w, &dropped);
    auto got = m.tokenize(x).pieces();
    c.check(got.size() == 1, "pieces changed");
    if (dropped) continue;
    for (auto& t : want)
      if (t.value == rm.unk && !rm.vocab.count(rm.unk)) t.id = got[0].toks.size() ? got[0].toks[0].id : t.id;
    p.toks = want;
    c.check(got[0].toks == want, "word " + show(w) + ": expected " + show({p}) + " but got " + show(got));
  }
  for (int k = 0; k < 3; k++) {
    std::string w = utf8(gen_word(c.s, 3));
    bool have = false;
    for (auto& p : vocab.o) have |= p.first == w;
    c.check(m.token_to_id(w).has_value() == have, "lookup of " + quote(w));
  }
  c.check((big || !m.id_to_token(vocab.o.size() + 5).has_value()) && !m.id_to_token(-1).has_value(), "a token for an id out of range");
}
CHECK_CASE(C22, model_values, 3) { model_values(c, false); }
CHECK_RARE(C22, model_values_large, 80) { model_values(c, true); }
CHECK_CASE(C22, added_values, 2) {
  static const std::vector<std::string> odd = {"\"", "\\", "a\"b", "\n", "\t|", "/s", "\\u0041", "é", "😀", "<|x|>", "{", "},"};
  J added = J::arr();
  std::set<std::string> seen;
  std::vector<ATok> want;
  for (int n = c.s.range(1, 5); n > 0; n--) {
    ATok t;
    t.content = c.s.pick(odd);
    if (c.s.coin()) t.content += c.s.pick(odd);
    if (!seen.insert(t.content).second) continue;
    t.special = c.s.coin();
    t.normalized = false;
    want.push_back(t);
    added.a.push_back(ref::to_json(t));
  }
  J cfg = J::obj({{"version", "1.0"}, {"truncation", J()}, {"padding", J()}, {"added_tokens", added}, {"normalizer", J()},
                  {"pre_tokenizer", J()}, {"post_processor", J()}, {"decoder", J()},
                  {"model", J::obj({{"type", "WordPiece"}, {"unk_token", "?"}, {"continuing_subword_prefix", "##"},
                                    {"max_input_chars_per_word", 100}, {"vocab", J::obj({{"?", 0}})}})}});
  std::string text = dump_random(cfg, c.s);
  c.describe(text);
  c.nontrivial = true;
  sut::Tokenizer k(text);
  for (auto& t : want) {
    Enc e = k.encode(utf8_decode(t.content));
    c.check(e.tokens == std::vector<std::string>{t.content}, "added token " + quote(t.content) + " is encoded as " + show(e));
    c.check(k.decode(e.ids, false) == t.content, "added token " + quote(t.content) + " decodes to " + quote(k.decode(e.ids, false)));
    c.check(k.decode(e.ids, true) == (t.special ? "" : t.content), "special flag of " + quote(t.content));
  }
}
// an option that is null and the same option with its default value
CHECK_CASE(C22, nulls, 3) {
  Config cfg = gen_config(c.s);
  J with_null = cfg.json, with_default = cfg.json;
  int n = 0;
  J model = cfg.json["model"];
  if (model["type"].str() == "BPE") {
    J mn = model, md = model;
    static const std::vector<std::pair<std::string, J>> opts = {
        {"dropout", J(0.0)}, {"continuing_subword_prefix", J("")}, {"end_of_word_suffix", J("")},
        {"fuse_unk", J(false)}, {"byte_fallback", J(false)}, {"ignore_merges", J(false)}};
    for (auto& o : opts) {
      // an affix is only dropped where there was none: merges depend on it
      bool affix = o.second.kind == J::STR;
      if (affix && !model[o.first].str().empty()) continue;
      if (!affix && !c.s.coin()) continue;
      mn.set(o.first, J());
      md.set(o.first, o.second);
      n++;
    }
    with_null.set("model", mn);
    with_default.set("model", md);
  }
  J pad = cfg.json["padding"];
  if (!pad.null()) {
    J pn = pad, pd = pad;
    pn.set("pad_to_multiple_of", J());
    pd.set("pad_to_multiple_of", c.s.coin() ? J(0) : J(1));
    with_null.set("padding", pn);
    with_default.set("padding", pd);
    n++;
  }
  J norm = cfg.json["normalizer"];
  if (norm["type"].str() == "BertNormalizer") {
    J nn = norm, nd = norm;
    nn.set("strip_accents", J());
    nd.set("strip_accents", norm["lowercase"].flag());  // follows lowercase
    with_null.set("normalizer", nn);
    with_default.set("normalizer", nd);
    n++;
  }
  if (cfg.json["added_tokens"].null() || cfg.json["added_tokens"].a.empty()) {
    with_null.set("added_tokens", J());
    with_default.set("added_tokens", J::arr());
    n++;
  }
  std::vector<U> texts;
  for (int k = c.s.range(1, 3); k > 0; k--) texts.push_back(gen_text_for(c.s, cfg, 20));
  std::string a = dump(with_null), b = dump(with_default);
  c.describe(a + " and " + b);
  c.nontrivial = n > 0;
  sut::Tokenizer x(a), y(b);
  for (auto& t : texts) {
    // an empty text is one empty piece or none, as there are added tokens or not
    if (t.empty()) continue;
    Enc p, q;
    bool add = c.s.coin();
    std::string f = behaviour(x, t, add, &p), g = behaviour(y, t, add, &q);
    if (f != g) c.fail("null and the default differ on " + show(t) + ": " + f + " and " + g + ": " + diff(p, q));
    c.check(x.decode(p.ids, true) == y.decode(p.ids, true), "null and the default decode differently");
  }
}

// ------------------------------------------------------------------ C23
// A strict reader of JSON, only to say whether a text is well-formed.
struct Json {
  const std::string& s;
  size_t at = 0;
  bool bad = false;
  bool unsure = false;  // lone surrogates and the like
  int depth = 0;
  explicit Json(const std::string& s) : s(s) {}
  void ws() {
    while (at < s.size() && strchr(" \n\r\t", s[at]) && s[at]) at++;
  }
  bool eat(const char* w) {
    size_t n = strlen(w);
    if (s.compare(at, n, w) != 0) return false;
    at += n;
    return true;
  }
  bool digits() {
    size_t b = at;
    while (at < s.size() && s[at] >= '0' && s[at] <= '9') at++;
    return at > b;
  }
  bool number() {
    if (at < s.size() && s[at] == '-') at++;
    if (at < s.size() && s[at] == '0') at++;
    else if (!digits()) return false;
    if (at < s.size() && s[at] == '.') {
      at++;
      if (!digits()) return false;
    }
    if (at < s.size() && (s[at] == 'e' || s[at] == 'E')) {
      at++;
      if (at < s.size() && (s[at] == '+' || s[at] == '-')) at++;
      if (!digits()) return false;
    }
    return true;
  }
  bool string() {
    if (at >= s.size() || s[at] != '"') return false;
    for (at++; at < s.size(); at++) {
      unsigned char ch = s[at];
      if (ch == '"') {
        at++;
        return true;
      }
      if (ch < 0x20) return false;
      if (ch == '\\') {
        at++;
        if (at >= s.size()) return false;
        if (s[at] == 'u') {
          unsigned v = 0;
          for (int k = 0; k < 4; k++) {
            at++;
            if (at >= s.size() || !isxdigit((unsigned char)s[at])) return false;
            v = v * 16 + (isdigit((unsigned char)s[at]) ? s[at] - '0' : (s[at] | 32) - 'a' + 10);
          }
          if (v >= 0xd800 && v < 0xe000) unsure = true;
        } else if (!strchr("\"\\/bfnrt", s[at]) || !s[at]) {
          return false;
        }
      }
    }
    return false;
  }
  bool value() {
    if (++depth > 900) {
      unsure = true;
      return false;
    }
    bool ok = value1();
    depth--;
    return ok;
  }
  bool value1() {
    ws();
    if (at >= s.size()) return false;
    if (s[at] == '{' || s[at] == '[') {
      char close = s[at] == '{' ? '}' : ']';
      at++;
      ws();
      if (at < s.size() && s[at] == close) {
        at++;
        return true;
      }
      while (true) {
        if (close == '}') {
          ws();
          if (!string()) return false;
          ws();
          if (!eat(":")) return false;
        }
        if (!value()) return false;
        ws();
        if (at < s.size() && s[at] == close) {
          at++;
          return true;
        }
        if (!eat(",")) return false;
      }
    }
    if (s[at] == '"') return string();
    return eat("true") || eat("false") || eat("null") || number();
  }
  bool well_formed() {
    if (!utf8_valid(s, nullptr)) return false;
    if (!value()) return false;
    ws();
    return at == s.size();
  }
};
enum Verdict { ACCEPTED, RUNTIME, INVALID_ARG, OTHER };
static const char* name_of(Verdict v) {
  static const char* n[] = {"accepted", "runtime_error", "invalid_argument", "another exception"};
  return n[v];
}
static Verdict construct(const std::string& path, const std::string& text) {
  try {
    sut::Tokenizer k(path, text);
    return ACCEPTED;
  } catch (const std::runtime_error&) {
    return RUNTIME;
  } catch (const std::invalid_argument&) {
    return INVALID_ARG;
  } catch (...) {
    return OTHER;
  }
}
static void judge_text(Case& c, const std::string& text, bool must_reject, const std::string& why) {
  Verdict v = construct("", text);
  c.check(v == ACCEPTED || v == RUNTIME, std::string("the constructor ends with ") + name_of(v));
  if (must_reject) c.check(v == RUNTIME, "accepted although " + why);
  Verdict again = construct("", text);
  c.check(again == v, std::string("first ") + name_of(v) + ", then " + name_of(again));
  c.label(v == ACCEPTED ? "accepted" : "rejected");
}

PROPERTY(C23, 60000,
         "valid configurations cut short, with bytes changed, ranges removed, repeated or "
         "replaced, with values of another type in a field that is read, without a required "
         "key, with an integer that does not fit, a bad regular expression or an unknown direction or strategy; paths without a "
         "readable file. The verdict is success or runtime_error, the same twice, and "
         "runtime_error whenever a strict JSON reader or the table of field types says the "
         "text is bad. Non-trivial: a text that must be rejected and is not so by its first bytes")
CHECK_CASE(C23, bytes, 6) {
  Config cfg = gen_config(c.s);
  std::string t = c.s.coin() ? dump(cfg.json) : dump_random(cfg.json, c.s);
  static const std::vector<std::string> bits = {
      "{", "}", "[", "]", ",", ":", "\"", "\\", "null", "true", "false", "0", "-1", "1e5", "99999999999999999999", "\\u", "\\ud800",
      "\\udc00", std::string(1, '\0'), "\xff", "\xc3", "\xe2\x82", "\xf0\x9f", " ", "\n", "{}", "[]", "nul", "\"type\":", "\"x\":1,", "1.5",
      "0x1", "+1", ".5", "01", "/**/", "'", "\xef\xbb\xbf", "tru", "Infinity", "NaN", "\"a\"", ",,", "]]]]", "[[[[[[[[", "\t"};
  int kinds = c.s.range(1, 2);
  std::string how;
  for (int k = 0; k < kinds; k++) {
    size_t n = t.size();
    size_t a = n ? c.s.draw(n) : 0, len = std::min<size_t>(n - std::min(n, a), c.s.chance(3, 4) ? c.s.range(1, 4) : c.s.range(1, 60));
    switch (c.s.draw(8)) {
      case 0:
        t.resize(a);
        how += "cut at " + std::to_string(a) + "; ";
        break;
      case 1:
        t.resize(n - std::min<size_t>(n, c.s.range(1, 6)));
        how += "end cut; ";
        break;
      case 2:
        if (n) t[a] = static_cast<char>(c.s.draw(256));
        how += "byte changed; ";
        break;
      case 3:
        t.erase(std::min(a, t.size()), len);
        how += "range removed; ";
        break;
      case 4:
        t.insert(std::min(a, t.size()), t.substr(std::min(a, t.size()), len));
        how += "range repeated; ";
        break;
      case 5:
        t.insert(std::min(a, t.size()), c.s.pick(bits));
        how += "inserted; ";
        break;
      case 6:
        t.replace(std::min(a, t.size()), len, c.s.pick(bits));
        how += "replaced; ";
        break;
      default:
        t += c.s.pick(bits);
        how += "appended; ";
    }
  }
  if (t.empty()) c.exclude("empty text");
  Json j(t);
  bool bad = !j.well_formed() && !j.unsure && t.compare(0, 3, "\xef\xbb\xbf") != 0;
  c.describe(how + t);
  c.label(bad ? "malformed" : "well-formed or unsure");
  c.nontrivial = bad && t.size() > 20;
  judge_text(c, t, bad, "the text is not well-formed JSON");
}
CHECK_CASE(C23, noise, 1) {
  std::string t;
  static const std::string alphabet = "{}[]\",:\\ntrue0123456789.-+eE \n\x01\xff\xc3\xa9";
  for (int n = c.s.size_upto(200); n > 0; n--) t += c.s.chance(3, 4) ? alphabet[c.s.draw(alphabet.size())] : static_cast<char>(c.s.draw(256));
  if (c.s.chance(1, 10)) t = std::string(c.s.range(1, 3000), c.s.coin() ? '[' : '{');
  if (t.empty()) c.exclude("empty text");
  c.describe(t);
  c.nontrivial = t.size() > 20;
  judge_text(c, t, true, "the text is noise");
}
// every value below j
static void paths(const J& j, std::vector<std::vector<int>>& out, std::vector<int> at) {
  out.push_back(at);
  int n = j.kind == J::ARR ? j.a.size() : j.kind == J::OBJ ? j.o.size() : 0;
  for (int i = 0; i < n; i++) {
    at.push_back(i);
    paths(j.kind == J::ARR ? j.a[i] : j.o[i].second, out, at);
    at.pop_back();
  }
}
static J* follow(J& j, const std::vector<int>& p) {
  J* k = &j;
  for (int i : p) k = k->kind == J::ARR ? &k->a[i] : &k->o[i].second;
  return k;
}
// the field a path leads to: top-level section, type of the component, key
struct Field {
  std::string section, type, key, parent;
  bool in_array = false;
};
static Field field_of(const J& j, const std::vector<int>& p) {
  Field f;
  const J* k = &j;
  for (size_t i = 0; i < p.size(); i++) {
    if (k->kind == J::OBJ) {
      if (i > 0 && (*k)["type"].kind == J::STR) f.type = (*k)["type"].str();
      f.parent = f.key;
      f.key = k->o[p[i]].first;
      if (i == 0) f.section = f.key;
      f.in_array = false;
      k = &k->o[p[i]].second;
    } else {
      f.in_array = true;
      k = &k->a[p[i]];
    }
  }
  return f;
}
// is a value of this kind in this field of the wrong type?
static bool wrong_type(const Field& f, const std::vector<int>& p, const J& was, J::Kind now) {
  if (p.empty()) return true;  // the whole text
  if (f.section == "version") return false;
  if (now == J::NUL) {
    // a null option is an absent one; a null where a part of a list or of a map is due is not
    static const std::set<std::string> lists = {"normalizers", "pretokenizers", "decoders", "processors"};
    static const std::set<std::string> parts = {"Sequence", "SpecialToken", "String", "Regex", "Fixed"};
    if (f.in_array || f.key == "type" || lists.count(f.key) || parts.count(f.key)) return true;
    if (f.section == "added_tokens") return p.size() == 3;
    return p.size() > 2 && f.section == "model" && f.parent == "vocab";
  }
  bool numeric = now == J::INT || now == J::DBL;
  // fields these components do not read
  if (f.section == "decoder" && f.type == "ByteLevel" && f.key != "type" && p.size() > 1 && f.key != "decoder" && f.key != "decoders") return false;
  if (f.type == "ByteLevel" && f.section == "pre_tokenizer" && f.key == "trim_offsets") return false;
  if (f.type == "ByteLevel" && f.section == "post_processor" && f.key == "use_regex") return false;
  if (f.key == "dropout") return !numeric;
  if (f.key == "strategy" && f.section == "padding") return now != J::STR && now != J::OBJ;
  J::Kind want = was.kind;
  if (want == J::NUL) {
    if (f.key == "continuing_subword_prefix" || f.key == "end_of_word_suffix" || f.key == "unk_token") want = J::STR;
    else if (f.key == "strip_accents") want = J::BOOL;
    else if (f.key == "pad_to_multiple_of") want = J::INT;
    else if (f.key == "added_tokens") want = J::ARR;
    else if (p.size() == 1) want = J::OBJ;
    else return false;
  }
  return want != now;
}
static J some_value(Src& s) {
  static const std::vector<J> vals = {J(), J(true), J(false), J(0), J(3), J(-7), J(2.5), J(""), J("x"), J("Sequence"), J("BPE"), J::arr(), J::obj(),
                                      J::arr({J(1)}), J::arr({J("a")}), J::arr({J::obj()}), J::obj({{"x", 1}}), J::obj({{"type", "NFC"}}),
                                      J::arr({J::arr()}), J::obj({{"type", J()}}), J::obj({{"a", J::obj()}})};
  return s.pick(vals);
}
CHECK_CASE(C23, types, 6) {
  Config cfg = gen_config(c.s);
  std::vector<std::vector<int>> ps, deep;
  paths(cfg.json, ps, {});
  // vocabularies are large: mostly choose elsewhere
  for (auto& p : ps) {
    Field f = field_of(cfg.json, p);
    if (!(f.parent == "vocab" && p.size() > 2) && !(f.key == "merges" && f.in_array)) deep.push_back(p);
  }
  auto p = c.s.chance(1, 6) ? c.s.pick(ps) : c.s.pick(deep);
  J k = cfg.json;
  J* at = follow(k, p);
  J v = some_value(c.s);
  Field f = field_of(cfg.json, p);
  bool bad = at->kind != v.kind && wrong_type(f, p, *at, v.kind);
  *at = v;
  std::string t = dump(k);
  c.describe("section " + f.section + " type " + f.type + " key " + f.key + " becomes " + dump(v) + ": " + t);
  c.label(bad ? "wrong type" : "another value");
  c.nontrivial = bad;
  judge_text(c, t, bad, "the field " + f.section + "/" + f.type + "/" + f.key + " has the wrong type");
}
CHECK_CASE(C23, missing, 3) {
  Config cfg = gen_config(c.s);
  std::vector<std::vector<int>> ps, objs;
  paths(cfg.json, ps, {});
  for (auto& p : ps) {
    if (p.empty()) continue;
    auto up = p;
    up.pop_back();
    if (follow(cfg.json, up)->kind != J::OBJ) continue;
    Field f = field_of(cfg.json, p);
    if (f.parent == "vocab" && p.size() > 2) continue;
    objs.push_back(p);
  }
  auto p = c.s.pick(objs);
  Field f = field_of(cfg.json, p);
  static const std::set<std::string> sections = {"truncation", "padding", "added_tokens", "normalizer", "pre_tokenizer", "model", "decoder", "post_processor"};
  static const std::set<std::string> required = {"type", "normalizers", "pretokenizers", "decoders", "processors", "single", "special_tokens", "prepend", "pattern", "behavior", "max_length"};
  bool top = p.size() == 1 && sections.count(f.key);
  bool inner = p.size() > 1 && f.section != "version" && f.section != "added_tokens" && f.parent != "special_tokens" && required.count(f.key);
  inner = inner || (f.section == "model" && p.size() == 2 && (f.key == "vocab" || f.key == "merges"));
  J k = cfg.json;
  auto up = p;
  up.pop_back();
  J* at = follow(k, up);
  at->o.erase(at->o.begin() + p.back());
  std::string t = dump(k);
  c.describe("without " + f.section + "/" + f.type + "/" + f.key + ": " + t);
  c.label(top || inner ? "required key missing" : "other key missing");
  c.nontrivial = top || inner;
  judge_text(c, t, top || inner, "the key " + f.key + " is missing");
}
CHECK_CASE(C23, values, 2) {
  Config cfg = gen_config(c.s);
  std::string t, why;
  int which = c.s.weighted({3, 2, 2, 2});
  if (which == 3) {
    // a special token with more ids than tokens, or fewer
    J post = gen_template(c.s, nullptr);
    J ids = J::arr(), toks = J::arr();
    int n = c.s.range(0, 4), m = (n + c.s.range(1, 4)) % 5;
    for (int i = 0; i < n; i++) ids.a.push_back(J(c.s.range(0, 9)));
    for (int i = 0; i < m; i++) toks.a.push_back(J("t" + std::to_string(i)));
    J special = post["special_tokens"];
    special.o.push_back({"@@", J::obj({{"id", "@@"}, {"ids", ids}, {"tokens", toks}})});
    if (c.s.coin()) std::rotate(special.o.begin(), special.o.end() - 1, special.o.end());
    post.set("special_tokens", special);
    if (c.s.coin()) post = J::obj({{"type", "Sequence"}, {"processors", J::arr({post})}});
    cfg.json.set("post_processor", post);
    t = dump(cfg.json);
    why = "a special token has " + std::to_string(n) + " ids and " + std::to_string(m) + " tokens";
  } else if (which == 2) {
    J section = c.s.coin() ? gen_truncation(c.s) : gen_padding(c.s);
    const char* name = section["max_length"].null() ? "padding" : "truncation";
    static const std::vector<std::string> odd = {"Up", "left", "RIGHT", "", "Right ", "Longest", "fixed", "OnlyThird", "BatchLongest2", "None"};
    const char* key = c.s.coin() ? "direction" : "strategy";
    section.set(key, c.s.chance(1, 6) ? J() : J(c.s.pick(odd)));
    cfg.json.set(name, section);
    t = dump(cfg.json);
    why = std::string(name) + " has the " + key + " " + dump(section[key]);
  } else if (which == 0) {
    // an integer that does not fit
    std::vector<std::vector<int>> ps, ints;
    paths(cfg.json, ps, {});
    for (auto& p : ps)
      if (follow(cfg.json, p)->kind == J::INT) ints.push_back(p);
    if (ints.empty()) c.exclude("no integers");
    J k = cfg.json;
    auto p = c.s.pick(ints);
    static const std::vector<std::string> big = {"2147483648", "-2147483649", "4294967296", "4294967297", "99999999999", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1e10", "1.0", "1E2"};
    std::string b = c.s.pick(big);
    *follow(k, p) = J("@@number@@");
    t = dump(k);
    size_t at = t.find("\"@@number@@\"");
    t.replace(at, 12, b);
    Field f = field_of(cfg.json, p);
    why = "the integer of " + f.section + "/" + f.key + " is " + b;
    if (f.key == "dropout") c.exclude("a number, not an integer");
  } else {
    static const std::vector<std::string> bad = {"(", "[", "a)", "*", "(?<", "[a", "a{2,1}", "\\", "(?P<x>", "[z-a]", "++", "(?'"};
    std::string rx = c.s.pick(bad);
    if (c.s.chance(1, 3)) rx = "a" + rx;
    J pre = J::obj({{"type", "Split"}, {"pattern", J::obj({{"Regex", rx}})}, {"behavior", "Isolated"}, {"invert", false}});
    if (c.s.coin()) pre = J::obj({{"type", "Sequence"}, {"pretokenizers", J::arr({pre})}});
    cfg.json.set("pre_tokenizer", pre);
    t = dump(cfg.json);
    why = "the regular expression " + quote(rx) + " is bad";
    if (rx == "a*" || rx == "a++") c.exclude("not bad after all");
  }
  c.describe(why + ": " + t);
  c.nontrivial = true;
  judge_text(c, t, true, why);
}
// Configurations that are well-typed but make little sense. They may be
// rejected, and so may a text, with an exception; what is accepted must neither
// crash nor give an encoding whose arrays differ in length.
static void make_odd(Src& s, J& j) {
  std::vector<std::vector<int>> ps, some;
  paths(j, ps, {});
  for (auto& p : ps) {
    Field f = field_of(j, p);
    bool entry = (f.parent == "vocab" && p.size() > 2) || (f.key == "merges" && f.in_array);
    bool limit = f.section == "truncation" && p.size() == 2;
    if (!p.empty() && (!entry || s.chance(1, 6))) some.insert(some.end(), limit ? 3 : 1, p);
  }
  auto p = s.pick(some);
  Field f = field_of(j, p);
  J* at = follow(j, p);
  static const std::vector<int> numbers = {-2147483647 - 1, -1000, -3, -1, 0, 1, 2, 3, 7, 255, 256, 4000};
  static const std::vector<std::string> strings = {"", " ", "a", "##", "#", "▁", "Ġ", "é", "[UNK]", "<unk>", "[PAD]", "<0x41>", "A", "B", "aa", "a b", "\xcc\x81", "😀", std::string(1, '\0')};
  static const std::vector<std::string> regexes = {"", "a", ".", "\\s", "\\b", "^", "$", "(?=a)", "(?<=a)", "a|", "\\w*", "[^a]+", "(?i)A", "\\X", "\\p{M}"};
  static const std::vector<std::string> types = {"Sequence", "NFC", "NFKD", "BertNormalizer", "Strip", "StripAccents", "Replace", "Prepend", "Lowercase", "ByteLevel", "Split",
                                                 "BertPreTokenizer", "Digits", "BPE", "WordPiece", "Unigram", "TemplateProcessing", "Fuse", "ByteFallback", "Metaspace", "CTC", ""};
  bool size = f.key == "Fixed" || f.key == "pad_to_multiple_of";
  switch (at->kind) {
    case J::INT: *at = J(!size && s.chance(1, 6) ? 2147483647 : s.chance(1, 4) ? numbers[0] : s.pick(numbers)); break;
    case J::BOOL: *at = J(!at->b); break;
    case J::DBL: *at = J(s.coin() ? -1.5 : 3.0); break;
    case J::STR:
      if (f.key == "type") *at = J(s.pick(types));
      else if (f.key == "Regex") *at = J(s.pick(regexes));
      else if (f.key == "merges") *at = J(s.pick(strings) + (s.chance(1, 4) ? "" : " ") + s.pick(strings));
      else *at = J(s.pick(strings));
      break;
    case J::ARR:
      if (at->a.empty()) break;
      switch (s.draw(4)) {
        case 0: at->a.clear(); break;
        case 1: at->a.push_back(s.pick(at->a)); break;
        case 2: at->a.erase(at->a.begin() + s.draw(at->a.size())); break;
        default: s.shuffle(at->a);
      }
      break;
    case J::OBJ: {
      if (at->o.empty()) break;
      size_t i = s.draw(at->o.size());
      bool names = f.key == "vocab" || f.key == "special_tokens" || f.section == "post_processor" || f.key == "strategy";
      if (names && s.coin()) at->o[i].first = s.pick(strings);
      else if (s.chance(1, 4)) at->o.erase(at->o.begin() + i);
      else if (!names) at->o[i].second = J();
      else at->o[i].second = s.pick(at->o).second;
      break;
    }
    default: break;
  }
}
// A configuration text that is broken in one way or another, or only odd.
std::string mutated_config(Src& s, const J& from) {
  J k = from;
  int how = s.weighted({3, 3, 3, 3});
  if (how == 0)
    for (int n = s.range(1, 4); n > 0; n--) make_odd(s, k);
  if (how == 1 || how == 2) {
    std::vector<std::vector<int>> ps;
    paths(k, ps, {});
    auto p = s.pick(ps);
    Field f = field_of(k, p);
    for (int n = 0; n < 4 && (p.empty() || (f.parent == "vocab" && p.size() > 2) || f.key == "merges"); n++) {
      p = s.pick(ps);
      f = field_of(k, p);
    }
    if (how == 1 || p.empty()) {
      *follow(k, p) = some_value(s);
    } else {
      auto up = p;
      up.pop_back();
      J* at = follow(k, up);
      if (at->kind == J::OBJ) at->o.erase(at->o.begin() + p.back());
      else at->a.erase(at->a.begin() + p.back());
    }
  }
  std::string t = dump(k);
  if (how == 3) {
    size_t at = s.draw(t.size());
    static const std::vector<std::string> junk = {",", "}", "]", "\"", "\\", "\xff", "{", "x", "0"};
    switch (s.draw(3)) {
      case 0: t.resize(at); break;
      case 1: t.insert(at, s.pick(junk)); break;
      default: t.erase(at, 1);
    }
  }
  return t;
}
CHECK_CASE(C24, odd_configs, 5) {
  TokOpts to;
  to.affix_bytes = true;
  Config cfg = gen_config(c.s, to);
  for (int n = c.s.range(1, 5); n > 0; n--) make_odd(c.s, cfg.json);
  std::string d = dump(cfg.json);
  c.describe(d);
  try {
    sut::Tokenizer k(d);
    for (int round = c.s.range(1, 3); round > 0; round--) {
      U t = gen_text_for(c.s, cfg, 20);
      bool add = c.s.coin();
      c.describe(d + " on " + show(t) + (add ? "" : " without special tokens"));
      std::vector<int> ids;
      try {
        Enc e = k.encode(t, add);
        ids = e.ids;
        std::vector<const Enc*> all = {&e};
        for (size_t i = 0; i < all.size(); i++)
          for (auto& o : all[i]->over) all.push_back(&o);
        for (auto* x : all) {
          size_t n = x->ids.size();
          c.check(x->type_ids.size() == n && x->tokens.size() == n && x->words.size() == n && x->offsets.size() == n &&
                      x->special.size() == n && x->attention.size() == n,
                  "the arrays differ in length: " + show(*x));
        }
        c.nontrivial |= e.ids.size() > 1;
        c.label("encoded");
      } catch (const std::invalid_argument&) {
        c.label("text rejected");
      } catch (const std::runtime_error&) {
        c.label("text rejected");
      }
      ids.push_back(c.s.range(-3, 300));
      try {
        k.decode(ids, c.s.coin());
      } catch (const std::runtime_error&) {
        c.label("ids rejected");
      }
    }
  } catch (const std::runtime_error&) {
    c.label("configuration rejected");
  }
}
// one configuration in each part: cut after every byte, without every byte,
// and with every byte changed in one of a few ways
CHECK_EACH(C23, each_byte, 24) {
  Config cfg;
  std::string t;
  do {
    cfg = gen_config(c.s);
    t = part % 2 ? dump_random(cfg.json, c.s) : dump(cfg.json);
  } while (t.size() > 6000 && c.s.draw(2) == 0);
  c.nontrivial = true;
  c.describe("every byte cut, removed and changed: " + t);
  Json whole(t);
  bool odd = t.compare(0, 3, "\xef\xbb\xbf") == 0;
  auto one = [&](const std::string& x, size_t at, const char* how) {
    if (x.empty()) return;
    Json j(x);
    bool bad = !odd && !j.well_formed() && !j.unsure;
    if (!bad) return;
    Verdict v = construct("", x);
    c.check(v == RUNTIME, std::string(name_of(v)) + " although the text is no JSON with byte " + std::to_string(at) + " of " + std::to_string(t.size()) + " " + how);
  };
  size_t step = 1 + t.size() / 3000;
  for (size_t i = c.s.draw(step); i < t.size(); i += step) {
    one(t.substr(0, i), i, "and what follows cut off");
    std::string x = t;
    x.erase(i, 1);
    one(x, i, "removed");
    static const char to[] = {'"', ',', '\\', '}', '\0', '\n', ' ', ':', (char)0xff, 'x'};
    x = t;
    x[i] = to[(i + part) % sizeof to];
    one(x, i, "changed");
    x = t;
    x.insert(i, 1, to[(i / 2 + part) % sizeof to]);
    one(x, i, "preceded by another");
  }
}
// thousands of entries and up to megabytes, in texts and files of lengths
// around multiples of a page
CHECK_RARE(C23, large, 120) {
  Config cfg = gen_config(c.s);
  enlarge(c.s, cfg);
  std::string t = dump(cfg.json), how = "as it is";
  if (c.s.coin()) {
    size_t unit = c.s.coin() ? 4096 : 64, want = (t.size() / unit + 1) * unit + c.s.range(0, 2) - 1;
    if (want > t.size()) t.insert(c.s.coin() ? t.size() : 1, want - t.size(), ' ');
  }
  bool bad = true;
  size_t at = c.s.coin() ? t.size() - 1 - c.s.draw(std::min<size_t>(t.size(), 40)) : c.s.draw(t.size());
  switch (c.s.draw(6)) {
    case 0: bad = false; break;
    case 1:
      t.resize(at);
      how = "cut at " + std::to_string(at);
      break;
    case 2:
      t.insert(at, 1, "\"\\,:}]{[\xff"[c.s.draw(9)]);
      how = "with a byte inserted at " + std::to_string(at);
      break;
    case 3:
      t.erase(at, 1);
      how = "without the byte at " + std::to_string(at);
      break;
    case 4:
      t += c.s.coin() ? "}" : " x";
      how = "with something after its end";
      break;
    default:
      t[at] = "\"\\,:}]{[\xff"[c.s.draw(9)];
      how = "with a byte changed at " + std::to_string(at);
  }
  if (t.empty()) c.exclude("empty text");
  Json j(t);
  if (bad) bad = !j.well_formed() && !j.unsure;
  c.describe("a configuration of " + std::to_string(t.size()) + " bytes " + how + ": " + t.substr(0, 1000));
  c.nontrivial = bad;
  if (how == "as it is") {
    c.check(construct("", t) == ACCEPTED, "a large configuration is rejected");
  } else {
    judge_text(c, t, bad, "the text is not well-formed JSON");
  }
  std::string dir = my_dir(), file = dir + "/tokenizer.json";
  write_file(file, t);
  Verdict v = construct(dir, ""), w = construct("", t);
  unlink(file.c_str());
  c.check(v == w, std::string("from a file: ") + name_of(v) + ", as a string: " + name_of(w));
}
// nested deep in one place or another; no promise how deep is too deep
CHECK_RARE(C23, deep, 300) {
  Config cfg = gen_config(c.s);
  int n = c.s.coin() ? c.s.range(1, 400) : c.s.coin() ? c.s.range(400, 1100) : c.s.range(1100, 60000);
  std::string t, open, close, core;
  int kind = c.s.draw(6);
  static const char* keys[] = {"normalizer", "pre_tokenizer", "decoder", "post_processor"};
  static const char* lists[] = {"normalizers", "pretokenizers", "decoders", "processors"};
  if (kind < 4) {
    J inner = kind == 0 ? gen_normalizer(c.s, 0) : kind == 1 ? gen_pre_tokenizer(c.s, 0) : kind == 2 ? gen_decoder(c.s, 0) : gen_post(c.s, 0, nullptr);
    if (c.s.chance(1, 4)) inner = J(3);
    cfg.json.set(keys[kind], J("@@deep@@"));
    open = std::string("{\"type\":\"Sequence\",\"") + lists[kind] + "\":[";
    close = "]}";
    core = dump(inner);
  } else {
    cfg.json.set("x", J("@@deep@@"));
    open = kind == 4 ? "[" : "{\"a\":";
    close = kind == 4 ? "]" : "}";
    core = c.s.coin() ? "1" : "";
    if (kind == 5) core = "1";
  }
  t = dump(cfg.json);
  std::string text;
  int missing = c.s.chance(1, 3) ? c.s.range(1, std::min(n, 5)) : 0;
  for (int i = 0; i < n; i++) text += open;
  text += core;
  for (int i = missing; i < n; i++) text += close;
  t.replace(t.find("\"@@deep@@\""), 10, text);
  c.describe(std::to_string(n) + " levels of " + open + " around " + core + (missing ? ", " + std::to_string(missing) + " not closed" : ""));
  c.label(n <= 300 ? "up to 300 levels" : n <= 1000 ? "up to 1000 levels" : "more than 1000 levels");
  c.nontrivial = n > 20;
  bool bad = missing > 0 || (kind < 4 && core == "3");
  judge_text(c, t, bad, bad && missing ? "brackets are not closed" : "the innermost component is a number");
  if (!bad && n <= 300) c.check(construct("", t) == ACCEPTED, "a configuration nested " + std::to_string(n) + " levels deep is rejected");
}
CHECK_CASE(C23, paths, 2) {
  std::string dir = my_dir();
  std::string file = dir + "/tokenizer.json";
  unlink(file.c_str());
  rmdir(file.c_str());
  Config cfg = gen_config(c.s);
  std::string good = dump(cfg.json), path = dir;
  Verdict want = RUNTIME;
  std::string how;
  switch (c.s.draw(8)) {
    case 0:
      how = "neither path nor configuration";
      c.describe(how);
      c.nontrivial = true;
      c.check(construct("", "") == INVALID_ARG, "neither path nor configuration is not an invalid_argument");
      return;
    case 1: how = "no file"; break;
    case 2:
      how = "no directory";
      path = dir + "/nowhere";
      break;
    case 3:
      how = "a directory instead of the file";
      mkdir(file.c_str(), 0755);
      break;
    case 4:
      how = "an empty file";
      write_file(file, "");
      break;
    case 5: {
      how = "a file cut short";
      size_t n = c.s.draw(good.size());
      write_file(file, good.substr(0, n));
      break;
    }
    case 6:
      how = "the file itself as the path";
      write_file(file, good);
      path = file;
      break;
    default:
      how = "a good file";
      write_file(file, good);
      want = ACCEPTED;
  }
  c.describe(how + ": " + good);
  c.nontrivial = true;
  Verdict v = construct(path, ""), again = construct(path, "");
  unlink(file.c_str());
  rmdir(file.c_str());
  c.check(v == want, how + " gives " + name_of(v) + ", not " + name_of(want));
  c.check(again == v, how + ": first " + name_of(v) + ", then " + name_of(again));
}
