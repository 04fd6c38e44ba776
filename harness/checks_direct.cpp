// C29: components built by calling their constructors, against the same ones
// built from a configuration.
#include <exception>

#include "gen.h"

namespace {
// a result, or what was thrown instead
template <class F>
std::string outcome(F f) {
  try {
    return f();
  } catch (const std::exception& e) {
    return std::string("exception ") + e.what();
  }
}
template <class F>
void same(Case& c, F a, F b, const std::string& what) {
  std::string x = outcome(a), y = outcome(b);
  c.check(x == y, what + ": from the configuration " + x + " but by the constructor " + y);
}
// texts made of what the component looks for, and others
U some_text(Src& s, const J& spec) {
  std::vector<U> hints;
  config_strings(spec, hints);
  TextOpts o;
  o.hints = hints;
  return gen_text(s, o);
}
std::vector<std::string> some_tokens(Src& s, const J& spec) {
  static const std::vector<std::string> pool = {"##a", "##", "▁b", " ", "", "<0xC3>", "<0xA9>", "<0xFF>", "<0x41>", "é", "Ġa", "a", "aa", ".", "n't", "世", "'s", "!"};
  std::vector<U> hints;
  config_strings(spec, hints);
  std::vector<std::string> r;
  for (int n = s.size_upto(12); n > 0; n--) r.push_back(!hints.empty() && s.chance(1, 3) ? utf8(s.pick(hints)) : s.pick(pool));
  return r;
}
}  // namespace

PROPERTY(C29, 40000,
         "components of every kind with random options, Sequences of them included, built from a "
         "configuration and by their constructors, and compared on random texts, tokens or "
         "encodings; constructors and calls with their default arguments against the same "
         "written out. Non-trivial: the component changed, cut or produced something")
CHECK_CASE(C29, components, 10) {
  if (!sut::direct_available()) c.exclude("the constructors are not as they were");
  int which = c.s.draw(7);
  static const char* const names[] = {"normalizer", "pre-tokenizer", "model", "post-processor", "decoder", "truncation", "padding"};
  c.label(names[which]);
  sut::Direct direct;
  if (which == 0) {
    J spec = gen_normalizer(c.s, 3);
    sut::Normalizer a(dump(spec)), b(direct, spec);
    for (int n = c.s.range(1, 3); n > 0; n--) {
      U t = some_text(c.s, spec);
      c.describe(dump(spec) + " on " + show(t));
      same<std::function<std::string()>>(c, [&] { return show(a.normalize(t)); }, [&] { return show(b.normalize(t)); }, "normalized");
      c.nontrivial |= a.normalize(t) != t;
    }
  } else if (which == 1) {
    J spec = gen_pre_tokenizer(c.s, 3, true);
    sut::PreTokenizer a(dump(spec)), b(direct, spec);
    for (int n = c.s.range(1, 3); n > 0; n--) {
      U t = some_text(c.s, spec);
      c.describe(dump(spec) + " on " + show(t));
      same<std::function<std::string()>>(c, [&] { return show(a.apply(sut::PTS(t)).pieces()); }, [&] { return show(b.apply(sut::PTS(t)).pieces()); }, "pieces");
      c.nontrivial |= a.apply(sut::PTS(t)).pieces().size() > 1;
    }
  } else if (which == 2) {
    Vocab v;
    BpeOpts bo;
    bo.byte_level = c.s.chance(1, 4);
    J spec = c.s.chance(1, 3) ? gen_wordpiece(c.s, v) : gen_bpe(c.s, v, bo);
    sut::Model a(dump(spec)), b(direct, spec);
    c.describe(dump(spec));
    c.check(a.vocab_size() == b.vocab_size(), "the vocabulary sizes differ");
    for (auto& x : v.tokens) c.check(a.token_to_id(x) == b.token_to_id(x), "the ids of " + quote(x) + " differ");
    for (int i = -1; i <= (int)v.tokens.size(); i++) c.check(a.id_to_token(i) == b.id_to_token(i), "the tokens of id " + std::to_string(i) + " differ");
    for (int n = c.s.range(1, 4); n > 0; n--) {
      TextOpts o;
      o.hints = v.words;
      U t = c.s.coin() && !v.words.empty() ? c.s.pick(v.words) : gen_text(c.s, o);
      c.describe(dump(spec) + " on " + show(t));
      same<std::function<std::string()>>(c, [&] { return show(a.tokenize(sut::PTS(t)).pieces()); }, [&] { return show(b.tokenize(sut::PTS(t)).pieces()); }, "tokens");
      for (auto& p : a.tokenize(sut::PTS(t)).pieces()) c.nontrivial |= p.toks.size() > 1;
    }
  } else if (which == 4) {
    J spec = gen_decoder(c.s, 3);
    sut::Decoder a(dump(spec)), b(direct, spec);
    for (int n = c.s.range(1, 3); n > 0; n--) {
      auto t = some_tokens(c.s, spec);
      c.describe(dump(spec) + " on " + show(t));
      same<std::function<std::string()>>(c, [&] { return show(a.decode(t)); }, [&] { return show(b.decode(t)); }, "decoded");
      c.nontrivial |= a.decode(t) != t;
    }
  } else {
    J spec = which == 3 ? gen_post(c.s, 3, nullptr) : which == 5 ? gen_truncation(c.s) : gen_padding(c.s);
    if (which == 3 && !c.s.chance(1, 4)) spec = gen_post(c.s, 3, nullptr);
    Enc e = gen_encoding(c.s, 25, 2, c.s.coin());
    bool add = c.s.coin();
    c.describe(dump(spec) + " on " + show(e) + (add ? "" : " without special tokens"));
    Enc r;
    auto compare = [&](auto f, auto g) {
      same<std::function<std::string()>>(c, [&] { r = f(); return show(r); }, [&] { return show(g()); }, "encoding");
    };
    if (which == 3) {
      sut::Post a(dump(spec)), b(direct, spec);
      compare([&] { return a.process(e, add); }, [&] { return b.process(e, add); });
    } else if (which == 5) {
      sut::Trunc a(dump(spec)), b(direct, spec);
      compare([&] { return a.apply(e); }, [&] { return b.apply(e); });
    } else {
      sut::Pad a(dump(spec)), b(direct, spec);
      compare([&] { return a.apply(e); }, [&] { return b.apply(e); });
    }
    c.nontrivial = !(r == e);
  }
}
CHECK_CASE(C29, defaults, 3) {
  if (!sut::direct_available()) c.exclude("the constructors are not as they were");
  int which = c.s.draw(5);
  static const char* const names[] = {"default normalizer", "default decoder", "default model", "default added token", "default calls"};
  c.label(names[which]);
  sut::Direct direct;
  if (which == 0) {
    J spec = J::obj({{"type", "BertNormalizer"}, {"clean_text", true}, {"handle_chinese_chars", true}, {"strip_accents", J()}, {"lowercase", true}});
    U t = gen_text(c.s, TextOpts());
    c.describe("BertNormalizer() on " + show(t));
    U want = sut::Normalizer(dump(spec)).normalize(t), got = sut::Normalizer(direct).normalize(t);
    c.check(want == got, "expected " + show(want) + " but got " + show(got));
    c.nontrivial = want != t;
  } else if (which == 1) {
    J spec = J::obj({{"type", "WordPiece"}, {"prefix", "##"}, {"cleanup", true}});
    auto t = some_tokens(c.s, spec);
    c.describe("WordPieceDecoder() on " + show(t));
    auto want = sut::Decoder(dump(spec)).decode(t), got = sut::Decoder(direct).decode(t);
    c.check(want == got, "expected " + show(want) + " but got " + show(got));
    c.nontrivial = want != t;
  } else if (which == 2) {
    Vocab v;
    J spec = gen_wordpiece(c.s, v);
    spec.set("unk_token", "[UNK]");
    spec.set("max_input_chars_per_word", 100);
    spec.set("continuing_subword_prefix", "##");
    J vocab = spec["vocab"];
    bool has = false;
    for (auto& x : vocab.o) has |= x.first == "[UNK]";
    if (!has) vocab.o.push_back({"[UNK]", J((int)vocab.o.size())});
    spec.set("vocab", vocab);
    int given = c.s.draw(3);
    U t = v.words.empty() ? U(U"a") : c.s.pick(v.words);
    if (c.s.coin()) {
      U one = t.empty() ? U(U"a") : t;
      int want = c.s.range(95, 106);
      while ((int)t.size() < want) t += one;
      t.resize(want);
    }
    c.describe("WordPiece with " + std::to_string(given) + " options given, " + dump(spec) + " on " + show(t));
    auto want = sut::Model(dump(spec)).tokenize(sut::PTS(t)).pieces(), got = sut::Model(direct, vocab, given).tokenize(sut::PTS(t)).pieces();
    c.check(want == got, "expected " + show(want) + " but got " + show(got));
    for (auto& p : want) c.nontrivial |= p.toks.size() > 1;
  } else if (which == 3) {
    int id = c.s.draw(1000);
    std::string content = utf8(gen_word(c.s, 4));
    c.describe("AddedToken(" + std::to_string(id) + ", " + quote(content) + ")");
    ATok t = sut::default_added(id, content), e = sut::empty_added();
    c.check(t.id == id && t.content == content, "not the id and content given");
    for (auto* x : {&t, &e}) c.check(!x->single_word && !x->lstrip && !x->rstrip && x->normalized && !x->special, "not the usual flags");
    c.check(e.id == 0 && e.content.empty(), "AddedToken() is not empty");
    c.nontrivial = true;
  } else {
    Config cfg = gen_config(c.s);
    sut::Tokenizer k(dump(cfg.json));
    U t = gen_text_for(c.s, cfg, 12);
    c.describe(dump(cfg.json) + " on " + show(t));
    std::vector<int> ids;
    same<std::function<std::string()>>(c, [&] { Enc e = k.encode(t, true); ids = e.ids; return show(e); }, [&] { return show(k.encode_default(t)); }, "encode(text, true) and encode(text)");
    for (int n = c.s.range(0, 4); n > 0; n--) ids.push_back(c.s.range(0, 60));
    same<std::function<std::string()>>(c, [&] { return quote(k.decode(ids, true)); }, [&] { return quote(k.decode_default(ids)); }, "decode(ids, true) and decode(ids)");
    c.nontrivial = ids.size() > 1;
  }
}
