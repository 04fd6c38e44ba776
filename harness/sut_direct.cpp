// Components built by calling their constructors. Should a constructor be gone,
// build.py compiles this with NO_DIRECT, and only C29 has nothing to compare.
#include "sut_impl.h"

#include "json.h"

namespace sut {
#ifndef NO_DIRECT
// ------------------------------------------------ by constructors
static std::unique_ptr<::Normalizer> make_normalizer(const J& j) {
  std::string t = j["type"].str();
  if (t == "Sequence") {
    std::vector<std::unique_ptr<::Normalizer>> v;
    for (auto& x : j["normalizers"].a) v.push_back(make_normalizer(x));
    return std::make_unique<::SequenceNormalizer>(std::move(v));
  }
  if (t == "NFC") return std::make_unique<::NFC>();
  if (t == "NFD") return std::make_unique<::NFD>();
  if (t == "NFKC") return std::make_unique<::NFKC>();
  if (t == "NFKD") return std::make_unique<::NFKD>();
  if (t == "Prepend") return std::make_unique<::Prepend>(j["prepend"].str());
  if (t == "Replace") return std::make_unique<::Replace>(j["pattern"]["String"].str(), j["content"].str());
  if (t == "Strip") return std::make_unique<::Strip>(j["strip_left"].flag(), j["strip_right"].flag());
  if (t == "StripAccents") return std::make_unique<::StripAccents>();
  if (t == "BertNormalizer")
    return std::make_unique<::BertNormalizer>(
        j["clean_text"].flag(), j["handle_chinese_chars"].flag(),
        j["strip_accents"].null() ? std::nullopt : std::optional<bool>(j["strip_accents"].flag()), j["lowercase"].flag());
  throw std::logic_error("no constructor for " + t);
}
static std::unique_ptr<::PreTokenizer> make_pre_tokenizer(const J& j) {
  std::string t = j["type"].str();
  if (t == "Sequence") {
    std::vector<std::unique_ptr<::PreTokenizer>> v;
    for (auto& x : j["pretokenizers"].a) v.push_back(make_pre_tokenizer(x));
    return std::make_unique<::SequencePreTokenizer>(std::move(v));
  }
  if (t == "BertPreTokenizer") return std::make_unique<::BertPreTokenizer>();
  if (t == "Split") return std::make_unique<::SplitPreTokenizer>(j["pattern"]["Regex"].str(), j["behavior"].str(), j["invert"].flag());
  if (t == "ByteLevel") return std::make_unique<::ByteLevelPreTokenizer>(j["add_prefix_space"].flag(), j["use_regex"].flag());
  throw std::logic_error("no constructor for " + t);
}
static std::unordered_map<std::string, int> make_vocab(const J& j) {
  std::unordered_map<std::string, int> r;
  for (auto& x : j.o) r.insert({x.first, x.second.num()});
  return r;
}
static std::unique_ptr<::Model> make_model(const J& j) {
  auto vocab = make_vocab(j["vocab"]);
  if (j["type"].str() == "WordPiece")
    return std::make_unique<::WordPiece>(vocab, j["unk_token"].str(), j["max_input_chars_per_word"].num(), j["continuing_subword_prefix"].str());
  std::vector<std::string> merges;
  for (auto& x : j["merges"].a) merges.push_back(x.str());
  return std::make_unique<::BPE>(vocab, merges, static_cast<float>(j["dropout"].d), j["unk_token"].str(), j["continuing_subword_prefix"].str(),
                                 j["end_of_word_suffix"].str(), j["fuse_unk"].flag(), j["byte_fallback"].flag(), j["ignore_merges"].flag());
}
static std::unique_ptr<::PostProcessor> make_post(const J& j) {
  std::string t = j["type"].str();
  if (t == "Sequence") {
    std::vector<std::unique_ptr<::PostProcessor>> v;
    for (auto& x : j["processors"].a) v.push_back(make_post(x));
    return std::make_unique<::SequenceProcessing>(std::move(v));
  }
  if (t == "ByteLevel") return std::make_unique<::ByteLevelProcessing>(j["add_prefix_space"].flag(), j["trim_offsets"].flag());
  if (t == "TemplateProcessing") {
    auto pieces = [](const J& list) {
      std::vector<std::pair<std::string, ::Piece>> r;
      for (auto& x : list.a)
        for (auto& y : x.o) r.push_back({y.first, ::Piece(y.second["id"].str(), y.second["type_id"].num())});
      return r;
    };
    std::vector<::SpecialToken> special;
    for (auto& x : j["special_tokens"].o) {
      std::vector<int> ids;
      std::vector<std::string> tokens;
      for (auto& y : x.second["ids"].a) ids.push_back(y.num());
      for (auto& y : x.second["tokens"].a) tokens.push_back(y.str());
      special.push_back(::SpecialToken(x.second["id"].str(), ids, tokens));
    }
    return std::make_unique<::TemplateProcessing>(pieces(j["single"]), pieces(j["pair"]), special);
  }
  throw std::logic_error("no constructor for " + t);
}
static std::unique_ptr<::Decoder> make_decoder(const J& j) {
  std::string t = j["type"].str();
  if (t == "Sequence") {
    std::vector<std::unique_ptr<::Decoder>> v;
    for (auto& x : j["decoders"].a) v.push_back(make_decoder(x));
    return std::make_unique<::SequenceDecoder>(std::move(v));
  }
  if (t == "WordPiece") return std::make_unique<::WordPieceDecoder>(j["prefix"].str(), j["cleanup"].flag());
  if (t == "Replace") return std::make_unique<::ReplaceDecoder>(j["pattern"]["String"].str(), j["content"].str());
  if (t == "ByteFallback") return std::make_unique<::ByteFallbackDecoder>();
  if (t == "Fuse") return std::make_unique<::FuseDecoder>();
  if (t == "Strip") return std::make_unique<::StripDecoder>(j["content"].str(), j["start"].num(), j["stop"].num());
  if (t == "ByteLevel") return std::make_unique<::ByteLevelDecoder>();
  throw std::logic_error("no constructor for " + t);
}
Normalizer::Normalizer(Direct, const J& spec) : impl(new Impl) { impl->norm = make_normalizer(spec); }
Normalizer::Normalizer(Direct) : impl(new Impl) { impl->norm.reset(new ::BertNormalizer()); }
PreTokenizer::PreTokenizer(Direct, const J& spec) : impl(new Impl) { impl->pre = make_pre_tokenizer(spec); }
Model::Model(Direct, const J& spec) : impl(new Impl) { impl->model = make_model(spec); }
Model::Model(Direct, const J& vocab, int given) : impl(new Impl) {
  auto v = make_vocab(vocab);
  impl->model.reset(given == 0 ? new ::WordPiece(v) : given == 1 ? new ::WordPiece(v, "[UNK]") : new ::WordPiece(v, "[UNK]", 100));
}
Post::Post(Direct, const J& spec) : impl(new Impl) { impl->post = make_post(spec); }
Decoder::Decoder(Direct, const J& spec) : impl(new Impl) { impl->dec = make_decoder(spec); }
Decoder::Decoder(Direct) : impl(new Impl) { impl->dec.reset(new ::WordPieceDecoder()); }
Trunc::Trunc(Direct, const J& j) : impl(new Impl) {
  impl->trunc.reset(new ::Truncation(j["direction"].str(), j["strategy"].str(), j["max_length"].num(), j["stride"].num()));
}
Pad::Pad(Direct, const J& j) : impl(new Impl) {
  const J& s = j["strategy"];
  bool fixed = s.kind == J::OBJ;
  impl->pad.reset(new ::Padding(j["direction"].str(), fixed ? "Fixed" : s.str(), fixed ? s["Fixed"].num() : -1, j["pad_id"].num(), j["pad_type_id"].num(),
                                j["pad_token"].str(), j["pad_to_multiple_of"].num()));
}
Enc Tokenizer::encode_default(const std::u32string& text) { return out(impl->tok->encode(w(text))); }
std::string Tokenizer::decode_default(const std::vector<int>& ids) { return impl->tok->decode(ids); }
static ATok conv(const ::AddedToken& t) { return {t.id, t.content, t.single_word, t.lstrip, t.rstrip, t.normalized, t.special}; }
ATok default_added(int id, const std::string& content) { return conv(::AddedToken(id, content)); }
ATok empty_added() { return conv(::AddedToken()); }
bool direct_available() { return true; }
#else
bool direct_available() { return false; }
Normalizer::Normalizer(Direct, const J&) {}
Normalizer::Normalizer(Direct) {}
PreTokenizer::PreTokenizer(Direct, const J&) {}
Model::Model(Direct, const J&) {}
Model::Model(Direct, const J&, int) {}
Post::Post(Direct, const J&) {}
Decoder::Decoder(Direct, const J&) {}
Decoder::Decoder(Direct) {}
Trunc::Trunc(Direct, const J&) {}
Pad::Pad(Direct, const J&) {}
Enc Tokenizer::encode_default(const std::u32string&) { return {}; }
std::string Tokenizer::decode_default(const std::vector<int>&) { return ""; }
ATok default_added(int, const std::string&) { return {}; }
ATok empty_added() { return {}; }
#endif
}  // namespace sut
