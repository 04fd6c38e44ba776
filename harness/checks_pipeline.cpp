// C01, C02, C17, C21: whole tokenizers.
#include <algorithm>

#include "gen.h"

static int sequence_at(const J& post, bool add, int* after) {
  // where the template puts a sequence of one token
  Enc e;
  e.ids = {7};
  e.type_ids = {0};
  e.tokens = {"x"};
  e.words = {0};
  e.offsets = {{0, 1}};
  e.special = {0};
  e.attention = {1};
  Enc r = ref::post(post, e, add);
  int at = -1;
  for (size_t i = 0; i < r.ids.size(); i++)
    if (!r.special[i]) at = i;
  *after = (int)r.ids.size() - 1 - at;
  return at;
}
static U strip_ws(U s) {
  while (!s.empty() && is_ws(s.back())) s.pop_back();
  size_t b = 0;
  while (b < s.size() && is_ws(s[b])) b++;
  return s.substr(b);
}

PROPERTY(C01, 12000,
         "configurations of four families (BERT, GPT-2, Llama-like, mixed components, with added "
         "tokens, truncation, templates, padding) and texts built from their vocabulary, with "
         "and without special tokens; every array of the encoding and of its overflowing "
         "encodings checked for length, mask layout, offsets, word order and ids. Non-trivial: "
         "text tokens together with padding, template tokens or overflow")
static void well_formed(Case& c, const Enc& e, int pads, bool pad_left, int before, int after,
                        int n_chars, const ref::Tokenizer& m, const std::string& pad_token, int pad_id) {
  size_t n = e.ids.size();
  c.check(e.type_ids.size() == n && e.tokens.size() == n && e.words.size() == n &&
              e.offsets.size() == n && e.special.size() == n && e.attention.size() == n,
          "arrays of different lengths: " + show(e));
  int total = n, lo = pad_left ? pads : 0, hi = total - (pad_left ? 0 : pads);
  int word = -1;
  for (int i = 0; i < total; i++) {
    bool is_pad = i < lo || i >= hi;
    bool is_tpl = !is_pad && (i < lo + before || i >= hi - after);
    auto at = [&] { return " at " + std::to_string(i) + " of " + show(e); };
    c.check(e.attention[i] == (is_pad ? 0 : 1), "attention mask" + at());
    c.check(e.special[i] == (is_pad || is_tpl ? 1 : 0), "special tokens mask" + at());
    if (is_pad) c.check(e.ids[i] == pad_id && e.tokens[i] == pad_token, "padding token" + at());
    if (is_pad || is_tpl) {
      c.check(e.offsets[i] == std::make_pair(0, 0), "offsets of an inserted token" + at());
      continue;
    }
    auto o = e.offsets[i];
    c.check(0 <= o.first && o.first <= o.second && o.second <= n_chars, "offsets out of bounds" + at());
    c.check(e.words[i].has_value() && *e.words[i] >= word, "word indices decrease" + at());
    word = *e.words[i];
    const std::string& t = e.tokens[i];
    bool ok = false;
    if (m.model) {
      auto it = m.model->vocab.find(t);
      ok = it != m.model->vocab.end() && it->second == e.ids[i];
      // an unknown token that the vocabulary lacks has no id of its own
      ok = ok || (m.model->wordpiece && t == m.model->unk && it == m.model->vocab.end());
    }
    auto a = m.added.by_id.find(e.ids[i]);
    if (!ok && a != m.added.by_id.end()) {
      U content = utf8_decode(a->second.content), v = utf8_decode(t);
      U norm = ref::normalize(m.config["normalizer"], content);
      ok = strip_ws(v) == strip_ws(content) || (a->second.normalized && strip_ws(v) == strip_ws(norm));
    }
    c.check(ok, "id " + std::to_string(e.ids[i]) + " is not the one of " + quote(t) + at());
  }
}
static void arrays(Case& c, bool big) {
  Config cfg = gen_config(c.s);
  if (big) enlarge(c.s, cfg);
  ref::Tokenizer m(cfg.json);
  J no_pad = cfg.json;
  no_pad.set("padding", J());
  sut::Tokenizer k(dump(cfg.json)), bare(dump(no_pad));
  c.label(cfg.family);
  const J& pad = cfg.json["padding"];
  for (int round = c.s.range(1, 3); round > 0; round--) {
    U t = big ? gen_big_text_for(c.s, cfg) : gen_text_for(c.s, cfg);
    bool add = !c.s.chance(1, 4);
    c.describe(dump(cfg.json) + " on " + show(t) + (add ? "" : " without special tokens"));
    ref::Tokenizer::Flags f;
    m.encode(t, add, &f);
    if (f.rejects) {
      c.label("stride leaves no room");
      continue;
    }
    Enc e = k.encode(t, add), b = bare.encode(t, add);
    int after = 0, before = sequence_at(cfg.json["post_processor"], add, &after);
    c.check(e.over.size() == b.over.size(), "padding changes the number of overflowing encodings");
    for (int i = -1; i < (int)e.over.size(); i++) {
      const Enc &x = i < 0 ? e : e.over[i], &y = i < 0 ? b : b.over[i];
      c.check(x.over.empty() || i < 0, "overflowing encodings overflow themselves");
      int pads = (int)x.ids.size() - (int)y.ids.size();
      c.check(pads >= 0, "padding removes tokens");
      c.check((int)y.ids.size() >= before + after, "template tokens missing: " + show(y));
      well_formed(c, x, pads, pad["direction"].str() == "Left", before, after, t.size(), m, pad["pad_token"].str(), pad["pad_id"].num());
      if ((int)y.ids.size() > before + after && (pads || before || after || i >= 0)) c.nontrivial = true;
    }
    if (!e.over.empty()) c.label("overflow");
  }
}
CHECK_CASE(C01, arrays, 1) { arrays(c, false); }
CHECK_RARE(C01, large, 120) { arrays(c, true); }

PROPERTY(C02, 40000,
         "configurations as for C01 with texts on which the library's tokens are the expected "
         "ones, offsets compared with a model that carries ranges of original characters "
         "through every step; normalizer chains of every kind with one token per normalized "
         "character, so that each character's range is seen; slices where nothing is "
         "normalized. Non-trivial: the normalizer changes the text or added tokens cut it, "
         "and there are at least two tokens")
static void same_offsets(Case& c, const Enc& want, const Enc& got) {
  if (want.ids != got.ids || want.tokens != got.tokens || want.over.size() != got.over.size()) {
    c.label("other tokens than expected: not judged here");
    return;
  }
  c.check(want.offsets == got.offsets, diff(want, got));
  for (size_t i = 0; i < want.over.size(); i++) same_offsets(c, want.over[i], got.over[i]);
}
static void forwards(Case& c, const Enc& e) {
  int s = 0, f = 0;
  for (size_t i = 0; i < e.ids.size(); i++) {
    if (e.special[i] || !e.attention[i]) continue;
    c.check(e.offsets[i].first >= s && e.offsets[i].second >= f, "offsets run backwards: " + show(e));
    s = e.offsets[i].first;
    f = e.offsets[i].second;
  }
}
static void characters(Case& c, bool big) {
  J norm = gen_normalizer(c.s, 2);
  ref::Rx any;
  any.cls = "[\\s\\S]";
  ref::put_rx("[\\s\\S]", any);
  J pre = J::obj({{"type", "Split"}, {"pattern", J::obj({{"Regex", "[\\s\\S]"}})}, {"behavior", "Isolated"}, {"invert", false}});
  J model = J::obj({{"type", "WordPiece"}, {"unk_token", "?"}, {"continuing_subword_prefix", "##"},
                    {"max_input_chars_per_word", 100}, {"vocab", J::obj({{"?", 0}})}});
  J added;
  TextOpts to;
  if (c.s.chance(1, 3)) {
    added = J::arr();
    for (auto& t : gen_added(c.s, {}, AddedOpts())) {
      added.a.push_back(ref::to_json(t));
      to.hints.push_back(utf8_decode(t.content));
    }
  }
  to.hints.push_back(U" ");
  config_strings(norm, to.hints);
  J cfg = J::obj({{"version", "1.0"}, {"truncation", J()}, {"padding", J()}, {"added_tokens", added},
                  {"normalizer", norm}, {"pre_tokenizer", pre}, {"post_processor", J()}, {"decoder", J()}, {"model", model}});
  to.dense_max = 1100;
  U t = big ? gen_big_text(c.s, to, 4200) : gen_text(c.s, to);
  c.describe(dump(cfg) + " on " + show(t));
  ref::Tokenizer m(cfg);
  sut::Tokenizer k(dump(cfg));
  ref::Tokenizer::Flags f;
  Enc want = m.encode(t, true, &f);
  if (f.ambiguous) c.exclude("two added tokens with one normalized form");
  Enc got = k.encode(t);
  c.nontrivial = want.ids.size() > 1 && (ref::normalize(norm, t) != t || !added.a.empty());
  same_offsets(c, want, got);
  if (want.tokens == got.tokens) forwards(c, got);
}
CHECK_CASE(C02, characters, 6) { characters(c, false); }
CHECK_RARE(C02, characters_large, 150) { characters(c, true); }
static void pipelines(Case& c, bool big) {
  Config cfg = gen_config(c.s);
  if (big) enlarge(c.s, cfg);
  ref::Tokenizer m(cfg.json);
  sut::Tokenizer k(dump(cfg.json));
  for (int round = c.s.range(1, 3); round > 0; round--) {
    U t = big ? gen_big_text_for(c.s, cfg) : gen_text_for(c.s, cfg);
    bool add = c.s.coin();
    c.describe(dump(cfg.json) + " on " + show(t) + (add ? "" : " without special tokens"));
    ref::Tokenizer::Flags f;
    Enc want = m.encode(t, add, &f);
    if (f.rejects) continue;
    if (f.dropped || f.ambiguous) {
      c.label(f.dropped ? "characters dropped by the model: not judged" : "ambiguous: not judged");
      continue;
    }
    Enc got = k.encode(t, add);
    if (want.ids.size() > 1 && ref::normalize(cfg.json["normalizer"], t) != t) c.nontrivial = true;
    same_offsets(c, want, got);
    if (dump(cfg.json["post_processor"]).find("ByteLevel") == std::string::npos && want.tokens == got.tokens) forwards(c, got);
  }
}
CHECK_CASE(C02, pipelines, 4) { pipelines(c, false); }
CHECK_RARE(C02, pipelines_large, 120) { pipelines(c, true); }
// nothing normalized: the slice is the token
CHECK_CASE(C02, slices, 2) {
  TokOpts o;
  o.allow_norm = o.allow_trunc = o.allow_pad = o.allow_post = false;
  o.allow_null_model = false;
  Config cfg = gen_config(c.s, o);
  if (dump(cfg.json["pre_tokenizer"]).find("ByteLevel") != std::string::npos)
    cfg.json.set("pre_tokenizer", J::obj({{"type", "BertPreTokenizer"}}));
  ref::Model rm(cfg.json["model"]);
  ref::Tokenizer m(cfg.json);
  sut::Tokenizer k(dump(cfg.json));
  U t = gen_text_for(c.s, cfg);
  c.describe(dump(cfg.json) + " on " + show(t));
  ref::Tokenizer::Flags f;
  m.encode(t, true, &f);
  if (f.dropped) c.exclude("characters dropped by the model");
  Enc e = k.encode(t);
  forwards(c, e);
  int last = -1;
  for (size_t i = 0; i < e.ids.size(); i++) {
    std::string slice = utf8(t.substr(e.offsets[i].first, e.offsets[i].second - e.offsets[i].first));
    std::string tok = e.tokens[i];
    if (m.added.by_id.count(e.ids[i]) && tok == slice) continue;
    if (tok == rm.unk || tok.compare(0, 3, "<0x") == 0) continue;
    // without its affixes, where the token does not stand for itself
    std::set<std::string> forms = {tok};
    auto cut_prefix = [&](const std::string& x) {
      if (!rm.prefix.empty() && x.compare(0, rm.prefix.size(), rm.prefix) == 0) forms.insert(x.substr(rm.prefix.size()));
    };
    if (!rm.suffix.empty() && tok.size() >= rm.suffix.size() && tok.compare(tok.size() - rm.suffix.size(), rm.suffix.size(), rm.suffix) == 0) {
      std::string x = tok.substr(0, tok.size() - rm.suffix.size());
      forms.insert(x);
      cut_prefix(x);
    }
    cut_prefix(tok);
    c.check(forms.count(slice), "token " + quote(tok) + " but the slice at its offsets is " + quote(slice) + ": " + show(e));
    c.nontrivial = true;
    last = i;
  }
  (void)last;
}

PROPERTY(C17, 60000,
         "lists of 0-4 normalizers, pre-tokenizers, decoders or post-processors, nested in "
         "Sequences in random ways; the Sequence compared with the library's own members "
         "applied one after another, with the flattened list and, for normalizers and "
         "pre-tokenizers, through whole tokenizers. Non-trivial: at least two members change "
         "the result")
// the same members grouped at random
static J group(Src& s, const std::vector<J>& ms, const char* type, const char* key, int depth) {
  J a = J::arr();
  for (size_t i = 0; i < ms.size();) {
    if (depth > 0 && s.chance(1, 3)) {
      size_t n = s.range(0, (int)(ms.size() - i));
      a.a.push_back(group(s, std::vector<J>(ms.begin() + i, ms.begin() + i + n), type, key, depth - 1));
      i += n;
    } else {
      a.a.push_back(ms[i++]);
    }
  }
  if (s.chance(1, 8)) a.a.push_back(J::obj({{"type", type}, {key, J::arr()}}));
  return J::obj({{"type", type}, {key, a}});
}
static J flat(const std::vector<J>& ms, const char* key) {
  return J::obj({{"type", "Sequence"}, {key, J::arr(ms)}});
}
static TextOpts sequence_text(const std::vector<J>& ms) {
  TextOpts o;
  o.dense_max = 600;
  for (auto& m : ms) config_strings(m, o.hints);
  return o;
}
static void seq_normalizers(Case& c, bool big) {
  std::vector<J> ms;
  for (int n = big && c.s.coin() ? c.s.range(5, 40) : c.s.range(0, 4); n > 0; n--) ms.push_back(gen_normalizer(c.s, 0));
  J seq = group(c.s, ms, "Sequence", "normalizers", 2), fl = flat(ms, "normalizers");
  U t = big ? gen_big_text(c.s, sequence_text(ms), 2100) : gen_text(c.s, sequence_text(ms));
  c.describe(dump(seq) + " on " + show(t));
  std::vector<std::unique_ptr<sut::Normalizer>> own;
  std::vector<const sut::Normalizer*> list;
  U step = t;
  int changes = 0;
  for (auto& m : ms) {
    own.emplace_back(new sut::Normalizer(dump(m)));
    list.push_back(own.back().get());
    U next = own.back()->normalize(step);
    changes += next != step;
    step = next;
    if (step.size() > 6000) c.exclude("the text grows too long");
  }
  c.nontrivial = changes >= 2;
  sut::Normalizer k(dump(seq)), kf(dump(fl));
  U got = k.normalize(t), folded = sut::Normalizer::fold(list, t), f = kf.normalize(t);
  c.check(got == folded, "the Sequence gives " + show(got) + ", its members " + show(folded));
  c.check(step == folded, "the members give " + show(step) + " from text to text, " + show(folded) + " in one go");
  c.check(f == got, "flattened it gives " + show(f) + ", nested " + show(got));
}
CHECK_CASE(C17, normalizers, 3) { seq_normalizers(c, false); }
CHECK_RARE(C17, normalizers_large, 100) { seq_normalizers(c, true); }
static J char_tokenizer(const J& norm, const J& pre) {
  return J::obj({{"version", "1.0"}, {"truncation", J()}, {"padding", J()}, {"added_tokens", J()},
                 {"normalizer", norm}, {"pre_tokenizer", pre}, {"post_processor", J()}, {"decoder", J()},
                 {"model", J::obj({{"type", "WordPiece"}, {"unk_token", "?"}, {"continuing_subword_prefix", "##"},
                                   {"max_input_chars_per_word", 100}, {"vocab", J::obj({{"?", 0}})}})}});
}
// offsets too: whole tokenizers over nested and flattened normalizers
CHECK_CASE(C17, alignment, 2) {
  std::vector<J> ms;
  for (int n = c.s.range(0, 4); n > 0; n--) ms.push_back(gen_normalizer(c.s, 0));
  J seq = group(c.s, ms, "Sequence", "normalizers", 2);
  J pre = J::obj({{"type", "Split"}, {"pattern", J::obj({{"Regex", "[\\s\\S]"}})}, {"behavior", "Isolated"}, {"invert", false}});
  U t = gen_text(c.s, sequence_text(ms));
  c.describe(dump(seq) + " on " + show(t));
  c.nontrivial = ms.size() >= 2 && ref::normalize(seq, t) != t;
  sut::Tokenizer a(dump(char_tokenizer(seq, pre)));
  sut::Tokenizer b(dump(char_tokenizer(ms.size() == 1 ? ms[0] : ms.empty() ? J() : flat(ms, "normalizers"), pre)));
  Enc x = a.encode(t), y = b.encode(t);
  c.check(x == y, "nested and flattened differ: " + diff(y, x));
}
static void seq_pre_tokenizers(Case& c, bool big) {
  std::vector<J> ms;
  bool bl = true;
  for (int n = big && c.s.coin() ? c.s.range(5, 12) : c.s.range(0, 4); n > 0; n--) {
    ms.push_back(gen_pre_tokenizer(c.s, 0, bl));
    if (ms.back()["type"].str() == "ByteLevel") bl = false;
  }
  J seq = group(c.s, ms, "Sequence", "pretokenizers", 2), fl = flat(ms, "pretokenizers");
  U t = big ? gen_big_text(c.s, sequence_text(ms), 1100) : gen_text(c.s, sequence_text(ms));
  c.describe(dump(seq) + " on " + show(t));
  sut::PTS p(t);
  int changes = 0;
  for (auto& m : ms) {
    sut::PTS q = sut::PreTokenizer(dump(m)).apply(p);
    changes += !(q.pieces() == p.pieces());
    p = q;
  }
  c.nontrivial = changes >= 2;
  auto want = p.pieces();
  auto got = sut::PreTokenizer(dump(seq)).apply(sut::PTS(t)).pieces();
  auto f = sut::PreTokenizer(dump(fl)).apply(sut::PTS(t)).pieces();
  c.check(got == want, "the Sequence gives " + show(got) + ", its members " + show(want));
  c.check(f == got, "flattened it gives " + show(f) + ", nested " + show(got));
  sut::Tokenizer a(dump(char_tokenizer(J(), seq)));
  sut::Tokenizer b(dump(char_tokenizer(J(), ms.size() == 1 ? ms[0] : ms.empty() ? J() : fl)));
  Enc x = a.encode(t), y = b.encode(t);
  c.check(x == y, "tokenizers over nested and flattened differ: " + diff(y, x));
}
CHECK_CASE(C17, pre_tokenizers, 4) { seq_pre_tokenizers(c, false); }
CHECK_RARE(C17, pre_tokenizers_large, 60) { seq_pre_tokenizers(c, true); }
static void seq_decoders(Case& c, bool big) {
  std::vector<J> ms;
  for (int n = big && c.s.coin() ? c.s.range(5, 40) : c.s.range(0, 4); n > 0; n--) ms.push_back(gen_decoder(c.s, 0));
  J seq = group(c.s, ms, "Sequence", "decoders", 2), fl = flat(ms, "decoders");
  std::vector<std::string> t;
  static const std::vector<std::string> pool = {"##a", "a", "▁b", " c", "<0xC3>", "<0xA9>", "é", ".", "'s", "Ġx", "n't", "", "😀", "▁", "aa", "<0x41>"};
  for (int n = big ? big_size(c.s, 4200) : c.s.size_upto(20); n > 0; n--) t.push_back(c.s.chance(3, 4) ? c.s.pick(pool) : utf8(gen_word(c.s, 3)));
  c.describe(dump(seq) + " on " + show(t));
  auto want = t;
  int changes = 0;
  for (auto& m : ms) {
    auto next = sut::Decoder(dump(m)).decode(want);
    changes += next != want;
    want = next;
    size_t all = 0;
    for (auto& x : want) all += x.size();
    if (all > 100000) c.exclude("the text grows too long");
  }
  c.nontrivial = changes >= 2;
  auto got = sut::Decoder(dump(seq)).decode(t), f = sut::Decoder(dump(fl)).decode(t);
  c.check(got == want, "the Sequence gives " + show(got) + ", its members " + show(want));
  c.check(f == got, "flattened it gives " + show(f) + ", nested " + show(got));
}
CHECK_CASE(C17, decoders, 3) { seq_decoders(c, false); }
CHECK_RARE(C17, decoders_large, 150) { seq_decoders(c, true); }
static void seq_post_processors(Case& c, bool big) {
  std::vector<J> ms;
  for (int n = big && c.s.coin() ? c.s.range(5, 40) : c.s.range(0, 4); n > 0; n--) ms.push_back(gen_post(c.s, 0, nullptr));
  J seq = group(c.s, ms, "Sequence", "processors", 2), fl = flat(ms, "processors");
  Enc e = big ? gen_big_encoding(c.s, 4200, c.s.coin()) : gen_encoding(c.s, 20, 1, c.s.coin());
  bool add = !c.s.chance(1, 4);
  c.describe(dump(seq) + (add ? "" : " without special tokens") + " on " + show(e));
  Enc want = e;
  int changes = 0;
  for (auto& m : ms) {
    Enc next = sut::Post(dump(m)).process(want, add);
    changes += !(next == want);
    want = next;
  }
  c.nontrivial = changes >= 2;
  Enc got = sut::Post(dump(seq)).process(e, add), f = sut::Post(dump(fl)).process(e, add);
  c.check(got == want, "the Sequence and its members differ: " + diff(want, got));
  c.check(f == got, "nested and flattened differ: " + diff(got, f));
}
CHECK_CASE(C17, post_processors, 3) { seq_post_processors(c, false); }
CHECK_RARE(C17, post_processors_large, 150) { seq_post_processors(c, true); }

PROPERTY(C21, 22000,
         "configurations of all families with any subset of stages present; encode compared with "
         "the library's own stages run one after another (added tokens and normalizer, "
         "pre-tokenizer, model, then truncation, post-processor, padding on the bare encoding) "
         "and with the reference pipeline; lengths against max_length. Non-trivial: at least "
         "three stages are present and the encoding is not empty")
static void stages(Case& c, bool big) {
  Config cfg = gen_config(c.s);
  if (big) enlarge(c.s, cfg);
  const J& j = cfg.json;
  sut::Tokenizer k(dump(j));
  J bare_json = j;
  bare_json.set("truncation", J());
  bare_json.set("padding", J());
  bare_json.set("post_processor", J());
  sut::Tokenizer bare(dump(bare_json));
  int stages = 0;
  for (const char* x : {"truncation", "padding", "added_tokens", "normalizer", "pre_tokenizer", "post_processor", "model"}) stages += !j[x].null();
  c.label(cfg.family);
  std::unique_ptr<sut::Normalizer> norm;
  std::unique_ptr<sut::PreTokenizer> pre;
  std::unique_ptr<sut::Model> model;
  sut::AddedVocab added;
  if (!j["normalizer"].null()) norm.reset(new sut::Normalizer(dump(j["normalizer"])));
  if (!j["pre_tokenizer"].null()) pre.reset(new sut::PreTokenizer(dump(j["pre_tokenizer"])));
  if (!j["model"].null()) model.reset(new sut::Model(dump(j["model"])));
  std::vector<ATok> at;
  for (auto& x : j["added_tokens"].a) at.push_back(ref::atok_from(x));
  added.add(at, model.get(), norm.get(), false);
  for (int round = c.s.range(1, 3); round > 0; round--) {
    U t = big ? gen_big_text_for(c.s, cfg) : gen_text_for(c.s, cfg);
    bool add = c.s.chance(2, 3);
    c.describe(dump(j) + " on " + show(t) + (add ? "" : " without special tokens"));
    // the stages up to the model, by the library's components
    sut::PTS p = j["added_tokens"].null() ? norm ? norm->normalize_pts(t) : sut::PTS(t) : added.extract(norm.get(), t);
    if (pre) p = pre->apply(p);
    if (model) p = model->tokenize(p);
    Enc b = bare.encode(t, add);
    std::vector<int> ids;
    std::vector<std::string> toks;
    for (auto& x : p.pieces())
      for (auto& y : x.toks) {
        ids.push_back(y.id);
        toks.push_back(y.value);
      }
    c.check(ids == b.ids && toks == b.tokens, "the components give tokens " + show(toks) + " but encode " + show(b.tokens));
    for (int type : b.type_ids) c.check(type == 0, "type id without a template");
    // the stages after it
    int n_added = j["post_processor"].null() ? 0 : ref::post(j["post_processor"], Enc(), add).ids.size();
    bool rejects = false;
    Enc want = ref::truncate(j["truncation"], b, n_added, &rejects);
    if (rejects) {
      bool threw = false;
      try {
        k.encode(t, add);
      } catch (const std::exception&) {
        threw = true;
      }
      c.check(threw, "a stride without room to advance was accepted");
      c.label("stride leaves no room");
      continue;
    }
    if (!j["post_processor"].null()) want = sut::Post(dump(j["post_processor"])).process(want, add);
    if (!j["truncation"].null() && n_added <= j["truncation"]["max_length"].num()) {
      size_t max = j["truncation"]["max_length"].num();
      J np = j;
      np.set("padding", J());
      Enc u = j["padding"].null() ? k.encode(t, add) : sut::Tokenizer(dump(np)).encode(t, add);
      c.check(u.ids.size() <= max, "longer than max_length: " + show(u));
      for (auto& o : u.over) c.check(o.ids.size() <= max || max == (size_t)n_added, "an overflowing encoding is longer than max_length: " + show(o));
    }
    if (!j["padding"].null()) want = sut::Pad(dump(j["padding"])).apply(want);
    Enc got = k.encode(t, add);
    if (stages >= 3 && !got.ids.empty()) c.nontrivial = true;
    c.check(got == want, diff(want, got));
  }
}
CHECK_CASE(C21, stages, 3) { stages(c, false); }
CHECK_RARE(C21, stages_large, 100) { stages(c, true); }
static void reference(Case& c, bool big, bool respell = false) {
  Config cfg = gen_config(c.s);
  if (big) enlarge(c.s, cfg);
  ref::Tokenizer m(cfg.json);
  std::string written = respell ? dump_random(cfg.json, c.s) : dump(cfg.json);
  sut::Tokenizer k(written);
  c.label(cfg.family);
  for (int round = c.s.range(1, 3); round > 0; round--) {
    U t = big ? gen_big_text_for(c.s, cfg) : gen_text_for(c.s, cfg);
    bool add = c.s.chance(2, 3);
    c.describe(written + " on " + show(t) + (add ? "" : " without special tokens"));
    ref::Tokenizer::Flags f;
    Enc want = m.encode(t, add, &f);
    if (f.rejects || f.ambiguous) {
      c.label(f.rejects ? "stride leaves no room" : "ambiguous");
      continue;
    }
    Enc got = k.encode(t, add);
    if (!got.ids.empty() && (!respell || written != dump(cfg.json))) c.nontrivial = true;
    auto same = [&](const Enc& w, const Enc& g) {
      return w.ids == g.ids && w.tokens == g.tokens && w.type_ids == g.type_ids && w.special == g.special && w.attention == g.attention;
    };
    bool ok = same(want, got) && want.over.size() == got.over.size();
    for (size_t i = 0; ok && i < want.over.size(); i++) ok = same(want.over[i], got.over[i]);
    // an unknown token that the vocabulary lacks has no id of its own
    if (!ok && m.model && m.model->wordpiece && !m.model->vocab.count(m.model->unk)) {
      c.label("unknown token without an id");
      continue;
    }
    c.check(ok, diff(want, got));
    if (respell) {
      bool skip = c.s.coin();
      std::string w = m.decode(want.ids, skip), g = k.decode(want.ids, skip);
      c.check(w == g, "decoding gives " + quote(g) + " and not " + quote(w));
    }
  }
}
CHECK_CASE(C22, meaning, 4) { reference(c, false, true); }
CHECK_CASE(C21, reference, 2) { reference(c, false); }
CHECK_RARE(C21, reference_large, 100) { reference(c, true); }

// more words than 16 bits count
CHECK_RARE(C01, many_words, 8) {
  int n = c.s.coin() ? 33000 : 66000, way = c.s.draw(3);
  n += c.s.range(0, 40);
  J pre = way == 0 ? J::obj({{"type", "BertPreTokenizer"}})
                   : J::obj({{"type", "Split"}, {"pattern", J::obj({{"Regex", " "}})}, {"behavior", "Removed"}, {"invert", false}});
  J added = J::arr();
  if (way == 2) {
    pre = J();
    ATok t;
    t.content = "x";
    t.id = 2;
    added.a.push_back(ref::to_json(t));
  }
  J cfg = J::obj({{"version", "1.0"}, {"truncation", J()}, {"padding", J()}, {"added_tokens", added},
                  {"normalizer", J()}, {"pre_tokenizer", pre}, {"post_processor", J()}, {"decoder", J()},
                  {"model", J::obj({{"type", "WordPiece"}, {"unk_token", "?"}, {"continuing_subword_prefix", "##"},
                                    {"max_input_chars_per_word", 100}, {"vocab", J::obj({{"?", 0}, {"a", 1}})}})}});
  U t;
  for (int i = 0; i < n; i++) t += way == 2 ? U(U"x") : U(U"a ");
  c.describe(dump(cfg) + " on " + std::to_string(n) + " words");
  Enc e = sut::Tokenizer(dump(cfg)).encode(t);
  size_t m = n;
  c.check(e.ids.size() == m && e.type_ids.size() == m && e.tokens.size() == m && e.words.size() == m &&
              e.offsets.size() == m && e.special.size() == m && e.attention.size() == m,
          "arrays of different lengths, or not one token for each word");
  for (int i = 0; i < n; i++) {
    int at = way == 2 ? i : 2 * i;
    c.check(e.words[i] && (i == 0 || *e.words[i] >= *e.words[i - 1]) && *e.words[i] >= 0, "words at " + std::to_string(i));
    c.check(e.offsets[i] == std::make_pair(at, at + 1), "offsets at " + std::to_string(i));
    c.check(e.ids[i] == (way == 2 ? 2 : 1) && !e.special[i] && e.attention[i] == 1, "entry " + std::to_string(i));
  }
  c.nontrivial = true;
}
