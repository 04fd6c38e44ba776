#include "gen.h"

#include <algorithm>
#include <set>

static J nrm(const char* type) { return J::obj({{"type", type}}); }

static U small_string(Src& s, int lo, int hi) {
  static const U pool = U"  ▁ab.*+?()[]\\^$|é世😀\u0301\nxA\u00a0{}-/\"#";
  U r;
  int n = s.range(lo, hi);
  for (int i = 0; i < n; i++) r += s.chance(1, 8) ? gen_char(s) : pool[s.draw(pool.size())];
  return r;
}

void config_strings(const J& spec, std::vector<U>& out) {
  for (auto& v : spec.a) config_strings(v, out);
  for (auto& f : spec.o) {
    if (f.second.kind == J::STR && (f.first == "String" || f.first == "prepend" || f.first == "content")) {
      U t = utf8_decode(f.second.str());
      if (!t.empty()) out.push_back(t);
    } else if (f.first != "vocab" && f.first != "merges") {
      config_strings(f.second, out);
    }
  }
}

J gen_normalizer(Src& s, int depth, const NormOpts& o) {
  for (int tries = 0; tries < 20; tries++) {
    switch (s.weighted({6, 2, 2, 2, 2, 4, 5, 3, 3, 3})) {
      case 0: {
        if (!o.bert) break;
        J n = nrm("BertNormalizer");
        n.set("clean_text", s.coin());
        n.set("handle_chinese_chars", s.coin());
        int sa = s.draw(3);
        n.set("strip_accents", sa == 0 ? J() : J(sa == 1));
        n.set("lowercase", s.coin());
        return n;
      }
      case 1: if (o.forms) return nrm("NFC"); break;
      case 2: if (o.forms) return nrm("NFD"); break;
      case 3: if (o.forms) return nrm("NFKC"); break;
      case 4: if (o.forms) return nrm("NFKD"); break;
      case 5: {
        if (!o.prepend) break;
        J n = nrm("Prepend");
        n.set("prepend", s.chance(1, 2) ? utf8(small_string(s, 0, 3)) : std::string("▁"));
        return n;
      }
      case 6: {
        if (!o.replace) break;
        J n = nrm("Replace");
        n.set("pattern", J::obj({{"String", utf8(s.chance(1, 3) ? U(U" ") : small_string(s, 0, 3))}}));
        n.set("content", utf8(small_string(s, 0, 3)));
        return n;
      }
      case 7: {
        if (!o.strips) break;
        J n = nrm("Strip");
        n.set("strip_left", s.coin());
        n.set("strip_right", s.coin());
        return n;
      }
      case 8: if (o.strips) return nrm("StripAccents"); break;
      case 9: {
        if (depth <= 0) break;
        J n = nrm("Sequence"), a = J::arr();
        int k = s.range(0, 4);
        for (int i = 0; i < k; i++) a.a.push_back(gen_normalizer(s, depth - 1, o));
        n.set("normalizers", a);
        return n;
      }
    }
  }
  return nrm("NFC");
}

ref::Rx gen_rx(Src& s, int depth) {
  ref::Rx r;
  static const std::vector<std::string> classes = {
      " ", "\\s", "a", "\\p{L}", "\\p{N}", "\\p{P}", "\\S", "[^\\s\\p{L}]", "[\\s\\S]",
      "[a-m]", "[^a]", "b", "-", "é", "世", "😀", "\\.", "▁", "(?i:b)", "(?i:É)",
      ".", "\\w", "\\W", "\\d", "[^\\r\\n]", "\\p{Lu}", "\\p{M}"};
  int k = depth <= 0 ? 0 : s.weighted({6, 4, 2, 2});
  if (depth > 0 && depth < 2 && s.chance(1, 8)) {
    r.kind = ref::Rx::Kind(s.range(ref::Rx::AHEAD, ref::Rx::NOT_BOUNDARY));
    r.cls = s.pick(classes);
    return r;
  }
  switch (k) {
    case 0:
      r.kind = ref::Rx::CLASS;
      r.cls = s.pick(classes);
      break;
    case 1:
      r.kind = ref::Rx::REP;
      r.kids.push_back(gen_rx(s, 0));
      switch (s.draw(5)) {
        case 0: r.min = 1; break;
        case 1: r.min = 0; break;
        case 2: r.max = 1; break;
        case 3: r.min = 1, r.max = 3; break;
        default: r.min = 2, r.max = 2;
      }
      if (r.kids[0].kind == ref::Rx::CLASS && s.chance(1, 6)) r.hurry = s.range(1, 2);
      break;
    case 2:
    case 3:
      r.kind = k == 2 ? ref::Rx::SEQ : ref::Rx::ALT;
      for (int i = s.range(2, 3); i > 0; i--) r.kids.push_back(gen_rx(s, depth - 1));
      break;
  }
  return r;
}
J gen_split(Src& s) {
  ref::Rx r = gen_rx(s, 2);
  // a repeated group, with nothing behind it that could fail
  if (s.chance(1, 8)) {
    ref::Rx group, rep;
    group.kind = s.coin() ? ref::Rx::SEQ : ref::Rx::ALT;
    for (int i = s.range(2, 3); i > 0; i--) group.kids.push_back(gen_rx(s, 0));
    rep.kind = ref::Rx::REP;
    rep.min = s.draw(2);
    rep.max = s.chance(1, 4) ? 3 : -1;
    rep.kids.push_back(group);
    r = rep;
  }
  std::string text = ref::icu(r);
  ref::put_rx(text, r);
  return J::obj({{"type", "Split"}, {"pattern", J::obj({{"Regex", text}})},
                 {"behavior", s.coin() ? "Removed" : "Isolated"}, {"invert", s.chance(1, 3)}});
}
J gen_pre_tokenizer(Src& s, int depth, bool byte_level) {
  switch (s.weighted({4, 4, byte_level ? 3 : 0, depth > 0 ? 3 : 0})) {
    case 0: return J::obj({{"type", "BertPreTokenizer"}});
    case 1: return gen_split(s);
    case 2:
      return J::obj({{"type", "ByteLevel"}, {"add_prefix_space", s.chance(1, 3)},
                     {"trim_offsets", s.coin()}, {"use_regex", s.coin()}});
    default: {
      J a = J::arr();
      int k = s.range(0, 4);
      bool bl = byte_level;
      for (int i = 0; i < k; i++) {
        a.a.push_back(gen_pre_tokenizer(s, depth - 1, bl));
        if (dump(a.a.back()).find("ByteLevel") != std::string::npos) bl = false;
      }
      return J::obj({{"type", "Sequence"}, {"pretokenizers", a}});
    }
  }
}

J Vocab::json() const {
  J o = J::obj();
  for (size_t i = 0; i < tokens.size(); i++) o.o.push_back({tokens[i], J((int)i)});
  return o;
}

static std::vector<U> gen_alphabet(Src& s) {
  std::vector<U> a;
  int n = s.range(1, 8), kind = s.weighted({6, 3, 2});
  std::set<char32_t> seen;
  for (int i = 0; i < n; i++) {
    char32_t c = kind == 0 ? U'a' + i : kind == 1 ? gen_word(s, 1)[0] : gen_char(s);
    if (seen.insert(c).second) a.push_back(U(1, c));
  }
  return a;
}
static U from_alphabet(Src& s, const std::vector<U>& a, int lo, int hi) {
  U r;
  for (int n = s.range(lo, hi); n > 0; n--) r += s.pick(a);
  return r;
}

J gen_wordpiece(Src& s, Vocab& v) {
  static const std::vector<std::string> prefixes = {"##", "", "#", "▁", "@@", "é", "a"};
  static const std::vector<std::string> unks = {"[UNK]", "<unk>", "", "a"};
  std::string prefix = s.chance(2, 3) ? "##" : s.pick(prefixes);
  std::string unk = s.chance(3, 4) ? "[UNK]" : s.pick(unks);
  auto alpha = gen_alphabet(s);
  std::set<std::string> seen;
  std::vector<std::string> toks;
  auto add = [&](const std::string& t) {
    if (!t.empty() && seen.insert(t).second) toks.push_back(t);
  };
  if (s.chance(9, 10)) add(unk);
  int singles = s.weighted({1, 2, 3, 6});  // how complete single characters are
  for (auto& c : alpha) {
    if (singles > 0 && !s.chance(1, singles * singles * 4)) add(utf8(c));
    if (singles > 0 && !s.chance(1, singles * singles * 4)) add(prefix + utf8(c));
  }
  for (int n = s.size_upto(40); n > 0; n--) {
    std::string w = utf8(from_alphabet(s, alpha, 1, 5));
    add(s.coin() ? w : prefix + w);
  }
  s.shuffle(toks);
  v.tokens = toks;
  for (int i = 0; i < 4; i++) v.words.push_back(from_alphabet(s, alpha, 1, 8));
  for (auto& a : alpha) v.words.push_back(a);
  int max = s.weighted({9, 2}) == 0 ? 100 : s.range(0, 12);
  return J::obj({{"type", "WordPiece"}, {"unk_token", unk},
                 {"continuing_subword_prefix", prefix},
                 {"max_input_chars_per_word", max}, {"vocab", v.json()}});
}

J gen_bpe(Src& s, Vocab& v, const BpeOpts& o) {
  std::vector<U> alpha;
  std::vector<std::string> toks;
  std::set<std::string> seen;
  auto add = [&](const std::string& t) {
    if (t.empty() || !seen.insert(t).second) return false;
    toks.push_back(t);
    return true;
  };
  std::string prefix, suffix, unk;
  if (o.affixes && !o.byte_level) {
    if (s.chance(1, 5)) prefix = s.coin() ? "##" : "é";
    if (s.chance(1, 5)) suffix = s.coin() ? "</w>" : "é";
  }
  bool fallback = false;
  if (o.byte_level) {
    if (o.full_bytes) {
      for (int b = 0; b < 256; b++) alpha.push_back(utf8_decode(ref::byte_chars()[b]));
    } else {
      for (auto& a : gen_alphabet(s))
        for (char32_t c : utf8_decode(ref::to_byte_chars(utf8(a)))) {
          if (std::find(alpha.begin(), alpha.end(), U(1, c)) == alpha.end()) alpha.push_back(U(1, c));
        }
      alpha.push_back(utf8_decode(ref::byte_chars()[' ']));
    }
    for (auto& a : alpha) add(utf8(a));
  } else {
    alpha = gen_alphabet(s);
    if (s.chance(1, 3)) alpha.push_back(U"▁");
    for (auto& c : alpha) {
      if (!o.complete && s.chance(1, 10)) continue;
      add(utf8(c));
      if (!prefix.empty()) add(prefix + utf8(c));
      if (!suffix.empty()) {
        add(utf8(c) + suffix);
        if (!prefix.empty()) add(prefix + utf8(c) + suffix);
      }
    }
    // combining byte tokens with affixes is left open
    if ((o.affix_bytes || (prefix.empty() && suffix.empty())) && s.chance(1, 3)) {
      fallback = true;
      int missing = s.chance(1, 3) ? s.draw(256) : -1;
      for (int b = 0; b < 256; b++) {
        char buf[8];
        snprintf(buf, sizeof buf, "<0x%02X>", b);
        if (b != missing) add(buf);
      }
    }
  }
  if (s.chance(2, 3)) {
    unk = s.coin() ? "<unk>" : "[UNK]";
    // an unknown token that is itself a character
    if (!o.byte_level && s.chance(1, 6)) unk = s.coin() ? "?" : utf8(s.pick(alpha));
    if (s.chance(9, 10)) add(unk);
  }
  // merges of existing pieces; several pairs may make the same piece
  std::vector<std::string> pieces;
  for (auto& t : toks)
    if (t != unk && t.compare(0, 3, "<0x") != 0) pieces.push_back(t);
  std::vector<std::string> merges;
  std::set<std::string> seen_merges;
  int n = pieces.empty() ? 0 : s.size_upto(40);
  // some characters are much more often merged than others
  size_t focus = std::min<size_t>(pieces.size(), 6);
  for (int i = 0; i < n; i++) {
    auto choose = [&]() -> const std::string& {
      size_t total = pieces.size();
      if (s.coin()) return pieces[total - 1 - s.draw(std::min<size_t>(total, 8))];
      return s.chance(2, 3) ? pieces[s.draw(focus)] : pieces[s.draw(total)];
    };
    std::string a = choose(), b = choose();
    if (a.find(' ') != std::string::npos) continue;
    // a word's suffix can only end the word, a prefix only continue it
    auto has_suffix = [&](const std::string& t) {
      return !suffix.empty() && t.size() > suffix.size() && t.compare(t.size() - suffix.size(), suffix.size(), suffix) == 0;
    };
    if (has_suffix(a)) continue;
    if (!prefix.empty() && b.compare(0, prefix.size(), prefix) != 0) continue;
    std::string m = a + " " + b;
    if (!seen_merges.insert(m).second) continue;
    std::string t = a + b.substr(prefix.size());
    if (t.size() > 60 || t == unk) {
      seen_merges.erase(m);
      continue;
    }
    merges.push_back(m);
    if (add(t)) pieces.push_back(t);
  }
  if (s.coin()) s.shuffle(merges);
  if (!o.full_bytes && s.coin()) s.shuffle(toks);
  v.tokens = toks;
  auto plain = [&](std::string t) {
    if (!prefix.empty() && t.compare(0, prefix.size(), prefix) == 0) t = t.substr(prefix.size());
    if (!suffix.empty() && t.size() > suffix.size() && t.compare(t.size() - suffix.size(), suffix.size(), suffix) == 0)
      t = t.substr(0, t.size() - suffix.size());
    return t;
  };
  for (int i = 0; i < 6 && !pieces.empty(); i++) {
    std::string w;
    for (int k = s.range(1, 5); k > 0; k--) {
      size_t total = pieces.size();
      w += plain(s.coin() ? pieces[total - 1 - s.draw(std::min<size_t>(total, 8))] : pieces[s.draw(focus)]);
    }
    v.words.push_back(utf8_decode(w));
  }
  J merges_json = J::arr();
  for (auto& m : merges) merges_json.a.push_back(J(m));
  J r = J::obj({{"type", "BPE"}});
  r.set("dropout", J());
  if (o.dropout) {
    static const double ds[] = {0.5, 0.1, 0.9, 1.0, 0.01};
    r.set("dropout", J(ds[s.draw(5)]));
  } else if (s.chance(1, 4)) {
    r.set("dropout", J(0.0));
  }
  r.set("unk_token", unk.empty() ? (s.coin() ? J() : J("")) : J(unk));
  r.set("continuing_subword_prefix", prefix.empty() && s.coin() ? J() : J(prefix));
  r.set("end_of_word_suffix", suffix.empty() && s.coin() ? J() : J(suffix));
  r.set("fuse_unk", s.coin());
  r.set("byte_fallback", fallback);
  r.set("ignore_merges", s.chance(1, 3));
  r.set("vocab", v.json());
  r.set("merges", merges_json);
  return r;
}

// mostly a small number, sometimes one that does not fit a narrower type
static int id_number(Src& s, int hi) {
  static const int odd[] = {127, 128, 255, 256, 300, 32767, 32768, 65535, 65536, 70000, 16777217, 2147483647, -1, -128, -129, -40000, -2147483647 - 1};
  return s.chance(1, 12) ? odd[s.draw(17)] : s.range(0, hi);
}
J gen_template(Src& s, Vocab* v) {
  std::vector<std::string> names;
  J specials = J::obj();
  static const std::vector<std::string> pool = {"[CLS]", "[SEP]", "<s>", "</s>", "é\"世", "A", "$A"};
  int n = s.range(0, 3);
  for (int i = 0; i < n; i++) {
    std::string name = s.pick(pool);
    if (std::find(names.begin(), names.end(), name) != names.end()) continue;
    names.push_back(name);
    J ids = J::arr(), toks = J::arr();
    int k = s.weighted({8, 2, 1}) == 0 ? 1 : s.range(0, 3);
    for (int j = 0; j < k; j++) {
      ids.a.push_back(J(id_number(s, 300)));
      toks.a.push_back(J(j ? name + std::to_string(j) : name));
    }
    specials.o.push_back({name, J::obj({{"id", name}, {"ids", ids}, {"tokens", toks}})});
  }
  auto side = [&](J& out) {
    if (names.empty()) return;
    for (int k = s.weighted({3, 6, 2}) + (s.chance(1, 10) ? 2 : 0); k > 0; k--)
      out.a.push_back(J::obj({{"SpecialToken", J::obj({{"id", s.pick(names)}, {"type_id", id_number(s, 2)}})}}));
  };
  J single = J::arr();
  side(single);
  int type = s.coin() ? 0 : id_number(s, 2);
  single.a.push_back(J::obj({{"Sequence", J::obj({{"id", "A"}, {"type_id", type}})}}));
  side(single);
  J pair = J::arr();
  if (s.coin()) {
    pair = single;
    pair.a.push_back(J::obj({{"Sequence", J::obj({{"id", "B"}, {"type_id", 1}})}}));
    if (!names.empty() && s.coin())
      pair.a.push_back(J::obj({{"SpecialToken", J::obj({{"id", names[0]}, {"type_id", 1}})}}));
  }
  (void)v;
  return J::obj({{"type", "TemplateProcessing"}, {"single", single}, {"pair", pair}, {"special_tokens", specials}});
}
J gen_post(Src& s, int depth, Vocab* v) {
  switch (s.weighted({4, 3, depth > 0 ? 3 : 0})) {
    case 0: return gen_template(s, v);
    case 1:
      return J::obj({{"type", "ByteLevel"}, {"add_prefix_space", s.coin()},
                     {"trim_offsets", s.chance(2, 3)}, {"use_regex", s.coin()}});
    default: {
      J a = J::arr();
      for (int k = s.range(0, 3); k > 0; k--) a.a.push_back(gen_post(s, depth - 1, v));
      return J::obj({{"type", "Sequence"}, {"processors", a}});
    }
  }
}
J gen_decoder(Src& s, int depth) {
  static const std::vector<std::string> prefixes = {"##", "##", "", "▁", "#", "@@"};
  switch (s.weighted({4, 4, 3, 3, 4, 3, depth > 0 ? 4 : 0})) {
    case 0: return J::obj({{"type", "WordPiece"}, {"prefix", s.pick(prefixes)}, {"cleanup", s.coin()}});
    case 1:
      return J::obj({{"type", "Replace"},
                     {"pattern", J::obj({{"String", s.coin() ? std::string("▁") : utf8(small_string(s, 0, 3))}})},
                     {"content", s.coin() ? std::string(" ") : utf8(small_string(s, 0, 3))}});
    case 2: return J::obj({{"type", "ByteFallback"}});
    case 3: return J::obj({{"type", "Fuse"}});
    case 4: {
      static const std::vector<std::string> contents = {" ", "a", "▁", "é", "😀", "\n"};
      return J::obj({{"type", "Strip"}, {"content", s.pick(contents)},
                     {"start", s.range(0, 3)}, {"stop", s.range(0, 3)}});
    }
    case 5: return J::obj({{"type", "ByteLevel"}, {"add_prefix_space", s.coin()}, {"trim_offsets", s.coin()}, {"use_regex", s.coin()}});
    default: {
      J a = J::arr();
      for (int k = s.range(0, 4); k > 0; k--) a.a.push_back(gen_decoder(s, depth - 1));
      return J::obj({{"type", "Sequence"}, {"decoders", a}});
    }
  }
}
J gen_truncation(Src& s) {
  int max = s.weighted({6, 2, 1}) == 0 ? s.range(1, 12) : s.range(0, 40);
  int stride = max > 1 ? s.coin() ? 0 : s.range(0, max - 1) : 0;
  return J::obj({{"direction", s.coin() ? "Left" : "Right"},
                 {"strategy", s.coin() ? "OnlyFirst" : "LongestFirst"},
                 {"max_length", max}, {"stride", stride}});
}
J gen_padding(Src& s) {
  static const std::vector<std::string> pads = {"[PAD]", "<pad>", "é", ""};
  J strategy = s.coin() ? J("BatchLongest") : J::obj({{"Fixed", s.chance(1, 15) ? -s.range(1, 10) : s.range(0, 30)}});
  return J::obj({{"strategy", strategy}, {"direction", s.coin() ? "Left" : "Right"},
                 {"pad_to_multiple_of", s.coin() ? J() : J(s.range(0, 9))},
                 {"pad_id", id_number(s, 50)}, {"pad_type_id", id_number(s, 3)},
                 {"pad_token", s.pick(pads)}});
}

std::vector<ATok> gen_added(Src& s, const std::vector<U>& hints, const AddedOpts& o) {
  static const std::vector<U> pool = {
      U"[MASK]", U"<s>", U"</s>", U"[CLS]", U"ab", U"abc", U"b", U"bc", U"a b", U"é",
      U"e\u0301", U"世", U"世界", U"😀", U"aa", U"aaa", U"<|end|>", U".", U"X", U"xY",
      U"▁", U"1", U"''", U"[MASK", U"MASK]", U"\u0301", U"foo-bar", U"ﬁ"};
  std::vector<ATok> r;
  std::set<std::string> seen;
  int n = s.size_upto(o.max);
  for (int i = 0; i < n; i++) {
    U c;
    switch (s.weighted({8, 3, 2, o.edge_space ? 1 : 0})) {
      case 0: c = s.pick(pool); break;
      case 1:
        if (!hints.empty())
          c = s.pick(hints);
        else
          c = gen_word(s, 3);
        break;
      case 2: c = gen_word(s, 3); break;
      default: c = s.coin() ? U(U" ") + s.pick(pool) : s.pick(pool) + U(U" ");
    }
    if (!o.edge_space && !c.empty() && (is_ws(c.front()) || is_ws(c.back()))) c = U"ab";
    if (!seen.insert(utf8(c)).second) continue;
    ATok t;
    t.content = utf8(c);
    t.id = s.range(0, 100);
    t.single_word = s.chance(1, 4);
    bool edge = c.empty() || is_ws(c.front()) || is_ws(c.back());
    t.lstrip = !edge && s.chance(1, 4);
    t.rstrip = !edge && s.chance(1, 4);
    t.normalized = s.coin();
    t.special = o.must_special || (o.specials && s.chance(1, 3));
    r.push_back(t);
  }
  return r;
}

Config gen_config(Src& s, const TokOpts& o) {
  Config c;
  Vocab v;
  J norm, pre, model, post, dec;
  int fam = s.weighted({4, 4, 3, 5});
  if (fam == 0) {
    c.family = "bert";
    J b = J::obj({{"type", "BertNormalizer"}, {"clean_text", !s.chance(1, 8)},
                  {"handle_chinese_chars", !s.chance(1, 8)}, {"strip_accents", J()},
                  {"lowercase", !s.chance(1, 4)}});
    norm = b;
    pre = J::obj({{"type", "BertPreTokenizer"}});
    model = gen_wordpiece(s, v);
    post = gen_template(s, &v);
    dec = J::obj({{"type", "WordPiece"}, {"prefix", "##"}, {"cleanup", s.coin()}});
  } else if (fam == 1) {
    c.family = "gpt2";
    if (s.chance(1, 4)) norm = J::obj({{"type", "NFC"}});
    pre = J::obj({{"type", "ByteLevel"}, {"add_prefix_space", s.chance(1, 4)}, {"trim_offsets", true}, {"use_regex", !s.chance(1, 4)}});
    BpeOpts bo;
    bo.byte_level = true;
    bo.full_bytes = s.coin();
    model = gen_bpe(s, v, bo);
    post = J::obj({{"type", "ByteLevel"}, {"add_prefix_space", s.coin()}, {"trim_offsets", s.coin()}, {"use_regex", true}});
    if (s.chance(1, 4)) post = J::obj({{"type", "Sequence"}, {"processors", J::arr({post, gen_template(s, &v)})}});
    dec = J::obj({{"type", "ByteLevel"}, {"add_prefix_space", true}, {"trim_offsets", true}, {"use_regex", true}});
  } else if (fam == 2) {
    c.family = "llama";
    norm = J::obj({{"type", "Sequence"},
                   {"normalizers", J::arr({J::obj({{"type", "Prepend"}, {"prepend", "▁"}}),
                                           J::obj({{"type", "Replace"}, {"pattern", J::obj({{"String", " "}})}, {"content", "▁"}})})}});
    BpeOpts bo;
    bo.affixes = o.affix_bytes && s.chance(1, 3);
    bo.affix_bytes = o.affix_bytes;
    model = gen_bpe(s, v, bo);
    if (s.coin()) post = gen_template(s, &v);
    dec = J::obj({{"type", "Sequence"},
                  {"decoders", J::arr({J::obj({{"type", "Replace"}, {"pattern", J::obj({{"String", "▁"}})}, {"content", " "}}),
                                       J::obj({{"type", "ByteFallback"}}), J::obj({{"type", "Fuse"}}),
                                       J::obj({{"type", "Strip"}, {"content", " "}, {"start", 1}, {"stop", 0}})})}});
  } else {
    c.family = "mixed";
    if (s.chance(3, 4)) norm = gen_normalizer(s, 2);
    if (s.chance(3, 4)) pre = gen_pre_tokenizer(s, 2);
    if (!o.allow_null_model || !s.chance(1, 12)) {
      if (s.coin()) {
        model = gen_wordpiece(s, v);
      } else {
        BpeOpts bo;
        bo.byte_level = dump(pre).find("ByteLevel") != std::string::npos;
        bo.affix_bytes = o.affix_bytes;
        model = gen_bpe(s, v, bo);
      }
    }
    if (s.chance(1, 2)) post = gen_post(s, 2, &v);
    if (s.chance(2, 3)) dec = gen_decoder(s, 2);
  }
  c.hints = v.words;
  if (fam == 1)  // the words are in byte characters: give back text
    for (auto& h : c.hints) {
      std::string bytes;
      for (char32_t ch : h)
        for (int b = 0; b < 256; b++)
          if (utf8(ch) == ref::byte_chars()[b]) bytes += static_cast<char>(b);
      U t;
      h = utf8_valid(bytes, &t) ? t : U(U"ab");
    }
  if (s.coin()) config_strings(norm, c.hints);
  J added;
  if (o.allow_added && !s.chance(1, 3)) {
    added = J::arr();
    std::vector<U> from = c.hints;
    AddedOpts ao;
    for (auto& t : gen_added(s, from, ao)) {
      added.a.push_back(ref::to_json(t));
      U content = utf8_decode(t.content);
      c.hints.push_back(content);
      if (s.coin()) c.hints.push_back(U(U" ") + content + U(U" "));
    }
  }
  if (!o.allow_norm || s.chance(1, 10)) norm = J();
  if (!o.allow_pre || s.chance(1, 10)) pre = J();
  if (!o.allow_post || s.chance(1, 6)) post = J();
  if (!o.allow_dec || s.chance(1, 10)) dec = J();
  J trunc, padding;
  if (o.allow_trunc && s.chance(1, 3)) trunc = gen_truncation(s);
  if (o.allow_pad && s.chance(1, 3)) padding = gen_padding(s);
  c.json = J::obj({{"version", "1.0"}, {"truncation", trunc}, {"padding", padding},
                   {"added_tokens", added}, {"normalizer", norm}, {"pre_tokenizer", pre},
                   {"post_processor", post}, {"decoder", dec}, {"model", model}});
  return c;
}
U gen_text_for(Src& s, const Config& c, int max_pieces) {
  TextOpts t;
  t.hints = c.hints;
  t.max_pieces = max_pieces;
  return gen_text(s, t);
}

U filler(int i) { return U(1, 0x4e00 + i / 270) + U(1, 0x5000 + i % 270); }
void enlarge(Src& s, Config& c) {
  int way = 1 + s.draw(7);  // which of the three
  if (way & 1 && !c.json["model"].null()) {
    J model = c.json["model"], vocab = model["vocab"];
    std::set<std::string> have;
    for (auto& p : vocab.o) have.insert(p.first);
    bool wp = model["type"].str() == "WordPiece";
    int n = s.chance(1, 4) ? 70000 : s.range(200, 5000), id = vocab.o.size();
    for (int i = 0; i < n; i++) {
      std::string t = (wp && i % 3 == 1 ? model["continuing_subword_prefix"].str() : "") + utf8(filler(i));
      if (have.insert(t).second) vocab.o.push_back({t, J(id++)});
    }
    model.set("vocab", vocab);
    c.json.set("model", model);
    for (int k = 0; k < 4; k++) c.hints.push_back(filler(s.draw(n)));
  }
  if (way & 2 && !c.json["added_tokens"].null()) {
    J added = c.json["added_tokens"];
    int n = s.chance(1, 4) ? 2000 : s.range(20, 600), flags = s.draw(256);
    for (int i = 0; i < n; i++) {
      ATok t;
      t.content = "<e" + std::to_string(i) + (i % 7 ? ">" : "");
      t.id = i;
      t.single_word = (flags & 1) && i % 2;
      t.lstrip = (flags & 2) && i % 3 == 1;
      t.rstrip = (flags & 4) && i % 5 == 1;
      t.normalized = (flags & 8) ? i % 11 == 1 : (flags & 16) != 0;
      t.special = (flags & 32) && i % 4 == 1;
      added.a.push_back(ref::to_json(t));
    }
    c.json.set("added_tokens", added);
    for (int k = 0; k < 6; k++) c.hints.push_back(utf8_decode(added.a[s.draw(added.a.size())]["content"].str()));
    for (const char32_t* h : {U"<e", U"<e1", U">", U" "}) c.hints.push_back(h);
  }
  if (way & 4) {
    if (!c.json["truncation"].null()) {
      J t = gen_truncation(s);
      int max = big_size(s, 1100);
      t.set("max_length", max);
      t.set("stride", s.coin() ? 0 : s.coin() ? s.range(0, max - 1) : max - s.range(30, 60));
      c.json.set("truncation", t);
    }
    if (!c.json["padding"].null()) {
      J p = gen_padding(s);
      if (s.coin()) p.set("strategy", J::obj({{"Fixed", big_size(s, 2100)}}));
      if (s.coin()) p.set("pad_to_multiple_of", big_size(s, 1100));
      c.json.set("padding", p);
    }
  }
}
U gen_big_text_for(Src& s, const Config& c, int max) {
  TextOpts t;
  t.hints = c.hints;
  return gen_big_text(s, t, max);
}

Enc gen_encoding(Src& s, int max_len, int depth, bool byte_tokens) {
  Enc e;
  int n = s.size_upto(max_len), at = 0;
  int word = 0;
  for (int i = 0; i < n; i++) {
    std::string t;
    int len;
    if (byte_tokens) {
      U u;
      for (int k = s.weighted({3, 3, 1}); k > 0; k--) u += U'Ġ';
      for (int k = s.range(0, 3); k > 0; k--) u += s.chance(1, 5) ? U'Ċ' : s.chance(1, 4) ? U'Ġ' : U'a' + s.draw(3);
      for (int k = s.weighted({4, 2, 1}); k > 0; k--) u += U'Ġ';
      t = utf8(u);
      len = u.size();
    } else {
      U u = gen_word(s, 4);
      t = utf8(u);
      len = u.size();
    }
    if (s.chance(1, 6)) at += s.range(0, 3);
    e.ids.push_back(id_number(s, 1000));
    e.type_ids.push_back(id_number(s, 2));
    e.tokens.push_back(t);
    e.words.push_back(s.chance(1, 10) ? std::optional<int>() : std::optional<int>(word));
    if (s.coin()) word++;
    e.offsets.push_back({at, at + len});
    at += len;
    e.special.push_back(s.chance(1, 8));
    e.attention.push_back(!s.chance(1, 8));
  }
  if (depth > 0)
    for (int k = s.weighted({4, 2, 1}); k > 0; k--) e.over.push_back(gen_encoding(s, max_len, depth - 1, byte_tokens));
  return e;
}

Enc gen_big_encoding(Src& s, int max, bool byte_tokens) {
  Enc e = gen_encoding(s, 24, 0, byte_tokens);
  if (e.ids.empty()) return e;
  int n = big_size(s, max), k = e.ids.size(), span = e.offsets.back().second + 1;
  bool repeat_words = s.coin();
  for (int i = k; i < n; i++) {
    int j = i % k, round = i / k;
    e.ids.push_back(i + 1001);
    e.type_ids.push_back(e.type_ids[j]);
    e.tokens.push_back(e.tokens[j]);
    e.words.push_back(!e.words[j] ? e.words[j] : std::optional<int>(repeat_words ? *e.words[j] + round : i));
    e.offsets.push_back({e.offsets[j].first + round * span, e.offsets[j].second + round * span});
    e.special.push_back(e.special[j]);
    e.attention.push_back(e.attention[j]);
  }
  return e;
}

std::string show(const std::vector<std::string>& t) {
  std::string r = "[";
  for (size_t i = 0; i < t.size(); i++) r += (i ? ", " : "") + quote(t[i]);
  return r + "]";
}
template <class T>
static std::string show_ints(const std::vector<T>& t) {
  std::string r = "[";
  for (size_t i = 0; i < t.size(); i++) r += (i ? "," : "") + std::to_string(t[i]);
  return r + "]";
}
static std::string show_offsets(const std::vector<std::pair<int, int>>& t) {
  std::string r = "[";
  for (size_t i = 0; i < t.size(); i++)
    r += (i ? " " : "") + std::to_string(t[i].first) + "-" + std::to_string(t[i].second);
  return r + "]";
}
static std::string show_words(const std::vector<std::optional<int>>& t) {
  std::string r = "[";
  for (size_t i = 0; i < t.size(); i++) r += (i ? "," : "") + (t[i] ? std::to_string(*t[i]) : "-");
  return r + "]";
}
std::string show(const Enc& e) {
  std::string r = "{ids " + show_ints(e.ids) + " tokens " + show(e.tokens) + " types " +
                  show_ints(e.type_ids) + " words " + show_words(e.words) + " offsets " +
                  show_offsets(e.offsets) + " special " + show_ints(e.special) +
                  " attention " + show_ints(e.attention);
  if (!e.over.empty()) {
    r += " overflow [";
    for (auto& o : e.over) r += show(o);
    r += "]";
  }
  return r + "}";
}
std::string show(const std::vector<Piece>& p) {
  std::string r = "[";
  for (size_t i = 0; i < p.size(); i++) {
    r += (i ? ", " : "") + quote(p[i].text) + "@" + std::to_string(p[i].s) + "-" + std::to_string(p[i].e);
    for (auto& t : p[i].toks)
      r += " <" + std::to_string(t.id) + " " + quote(t.value) + " " + std::to_string(t.s) + "-" + std::to_string(t.e) + ">";
  }
  return r + "]";
}
std::string diff(const Enc& w, const Enc& g) {
  std::string r;
  if (w.ids != g.ids) r += " ids " + show_ints(w.ids) + " but got " + show_ints(g.ids);
  if (w.tokens != g.tokens) r += " tokens " + show(w.tokens) + " but got " + show(g.tokens);
  if (w.type_ids != g.type_ids) r += " type_ids " + show_ints(w.type_ids) + " but got " + show_ints(g.type_ids);
  if (w.words != g.words) r += " words " + show_words(w.words) + " but got " + show_words(g.words);
  if (w.offsets != g.offsets) r += " offsets " + show_offsets(w.offsets) + " but got " + show_offsets(g.offsets);
  if (w.special != g.special) r += " special mask " + show_ints(w.special) + " but got " + show_ints(g.special);
  if (w.attention != g.attention) r += " attention " + show_ints(w.attention) + " but got " + show_ints(g.attention);
  if (w.over.size() != g.over.size())
    r += " overflowing count " + std::to_string(w.over.size()) + " but got " + std::to_string(g.over.size());
  else
    for (size_t i = 0; i < w.over.size(); i++)
      if (!(w.over[i] == g.over[i])) r += " overflow " + std::to_string(i) + ":" + diff(w.over[i], g.over[i]);
  return r.empty() ? "" : "expected" + r;
}
