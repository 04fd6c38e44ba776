#include "sut_impl.h"

bool vt::Enc::operator==(const vt::Enc& o) const {
  return ids == o.ids && type_ids == o.type_ids && tokens == o.tokens &&
         words == o.words && offsets == o.offsets && special == o.special &&
         attention == o.attention && over == o.over;
}

namespace sut {
static std::u32string u(const std::wstring& s) { return std::u32string(s.begin(), s.end()); }

template <class F>
static auto with_json(const std::string& json, F f) {
  simdjson::ondemand::parser parser;
  simdjson::padded_string padded(json);
  simdjson::ondemand::document doc = parser.iterate(padded);
  simdjson::ondemand::object params = doc.get_object().value();
  return f(params);
}

PTS::PTS(const std::u32string& text) : impl(new Impl) {
  impl->pts.reset(new ::PreTokenizedString(::NormalizedString(w(text))));
}
PTS::PTS(const PTS& o) : impl(new Impl) {
  impl->pts.reset(new ::PreTokenizedString(*o.impl->pts));
}
PTS& PTS::operator=(const PTS& o) {
  impl->pts.reset(new ::PreTokenizedString(*o.impl->pts));
  return *this;
}
PTS::~PTS() {}
static PTS wrap(::PreTokenizedString p) {
  PTS r(U"");
  r.impl->pts.reset(new ::PreTokenizedString(std::move(p)));
  return r;
}
std::vector<Piece> PTS::pieces() const {
  std::vector<Piece> r;
  for (const ::Split& s : impl->pts->splits) {
    Piece p;
    p.text = s.normalized;
    p.s = s.offsets.first;
    p.e = s.offsets.second;
    for (const ::Token& t : s.tokens)
      p.toks.push_back({t.id, t.value, t.offsets.first, t.offsets.second});
    r.push_back(p);
  }
  return r;
}
void PTS::set_pieces(const std::vector<Piece>& ps) {
  std::vector<::Split> splits;
  for (const Piece& p : ps) {
    ::Split s(p.text, {p.s, p.e});
    for (const Tok& t : p.toks) s.tokens.push_back(::Token(t.id, t.value, {t.s, t.e}));
    splits.push_back(s);
  }
  impl->pts->splits = splits;
}

Normalizer::Normalizer(const std::string& json) : impl(new Impl) {
  impl->norm = with_json(json, [](simdjson::ondemand::object o) { return ::with_normalizer(o); });
}
Normalizer::~Normalizer() {}
bool Normalizer::null() const { return impl->norm == nullptr; }
std::u32string Normalizer::normalize(const std::u32string& text) const {
  return u(impl->norm->normalize(::NormalizedString(w(text))).normalized);
}
std::u32string Normalizer::fold(const std::vector<const Normalizer*>& ns,
                                const std::u32string& text) {
  ::NormalizedString n(w(text));
  for (auto* k : ns) n = k->impl->norm->normalize(n);
  return u(n.normalized);
}
PTS Normalizer::normalize_pts(const std::u32string& text) const {
  return wrap(::PreTokenizedString(impl->norm->normalize(::NormalizedString(w(text)))));
}

PreTokenizer::PreTokenizer(const std::string& json) : impl(new Impl) {
  impl->pre = with_json(json, [](simdjson::ondemand::object o) { return ::with_pre_tokenizer(o); });
}
PreTokenizer::~PreTokenizer() {}
bool PreTokenizer::null() const { return impl->pre == nullptr; }
PTS PreTokenizer::apply(const PTS& p) const {
  return wrap(impl->pre->pre_tokenize(*p.impl->pts));
}

Model::Model(const std::string& json) : impl(new Impl) {
  impl->model = with_json(json, [](simdjson::ondemand::object o) { return ::with_model(o); });
}
Model::~Model() {}
bool Model::null() const { return impl->model == nullptr; }
PTS Model::tokenize(const PTS& p) const { return wrap(impl->model->tokenize(*p.impl->pts)); }
std::optional<int> Model::token_to_id(const std::string& t) const { return impl->model->token_to_id(t); }
std::optional<std::string> Model::id_to_token(int id) const { return impl->model->id_to_token(id); }
int Model::vocab_size() const { return impl->model->get_vocab_size(); }

static std::vector<::AddedToken> conv(const std::vector<ATok>& toks) {
  std::vector<::AddedToken> r;
  for (const ATok& t : toks)
    r.push_back(::AddedToken(t.id, t.content, t.single_word, t.lstrip, t.rstrip,
                             t.normalized, t.special));
  return r;
}
AddedVocab::AddedVocab() : impl(new Impl) {
  impl->added.reset(new ::AddedVocabulary(std::vector<::AddedToken>()));
}
AddedVocab::~AddedVocab() {}
int AddedVocab::add(const std::vector<ATok>& toks, const Model* m,
                    const Normalizer* n, bool special) {
  ::Model* mm = m ? m->impl->model.get() : nullptr;
  ::Normalizer* nn = n ? n->impl->norm.get() : nullptr;
  return special ? impl->added->add_special_tokens(conv(toks), mm, nn)
                 : impl->added->add_tokens(conv(toks), mm, nn);
}
PTS AddedVocab::extract(const Normalizer* n, const std::u32string& text) const {
  return wrap(impl->added->extract_and_normalize(n ? n->impl->norm.get() : nullptr, w(text)));
}
bool AddedVocab::is_special(const std::string& c) const { return impl->added->is_special_token(c); }
std::optional<std::string> AddedVocab::id_to_token(int id) const { return impl->added->id_to_token(id); }

Enc out(const ::Encoding& e) {
  Enc r;
  r.ids = e.ids;
  r.type_ids = e.type_ids;
  r.tokens = e.tokens;
  r.words = e.words;
  r.offsets = e.offsets;
  r.special = e.special_tokens_mask;
  r.attention = e.attention_mask;
  for (const ::Encoding& o : e.overflowing) r.over.push_back(out(o));
  return r;
}
static ::Encoding in(const Enc& e) {
  ::Encoding r(e.ids, e.type_ids, e.tokens, e.words, e.offsets, e.special, e.attention);
  for (const Enc& o : e.over) r.overflowing.push_back(in(o));
  return r;
}
Post::Post(const std::string& json) : impl(new Impl) {
  impl->post = with_json(json, [](simdjson::ondemand::object o) { return ::with_post_processor(o); });
}
Post::~Post() {}
bool Post::null() const { return impl->post == nullptr; }
Enc Post::process(const Enc& e, bool add_special) const { return out(impl->post->process(in(e), add_special)); }

Decoder::Decoder(const std::string& json) : impl(new Impl) {
  impl->dec = with_json(json, [](simdjson::ondemand::object o) { return ::with_decoder(o); });
}
Decoder::~Decoder() {}
bool Decoder::null() const { return impl->dec == nullptr; }
std::vector<std::string> Decoder::decode(const std::vector<std::string>& t) const { return impl->dec->decode_chain(t); }

Trunc::Trunc(const std::string& json) : impl(new Impl) {
  impl->trunc = with_json(json, [](simdjson::ondemand::object o) { return ::with_truncation(o); });
}
Trunc::~Trunc() {}
Enc Trunc::apply(const Enc& e) const { return out(impl->trunc->truncate_encoding(in(e))); }
Pad::Pad(const std::string& json) : impl(new Impl) {
  impl->pad = with_json(json, [](simdjson::ondemand::object o) { return ::with_padding(o); });
}
Pad::~Pad() {}
Enc Pad::apply(const Enc& e) const { return out(impl->pad->pad_encoding(in(e))); }

Tokenizer::Tokenizer(const std::string& config) : impl(new Impl) {
  impl->tok.reset(new ::Tokenizer("", config));
}
Tokenizer::Tokenizer(const std::string& path, const std::string& config) : impl(new Impl) {
  impl->tok.reset(new ::Tokenizer(path, config));
}
Tokenizer::~Tokenizer() {}
Enc Tokenizer::encode(const std::u32string& text, bool add_special) { return out(impl->tok->encode(w(text), add_special)); }
std::string Tokenizer::decode(const std::vector<int>& ids, bool skip) { return impl->tok->decode(ids, skip); }
int Tokenizer::add_tokens(const std::vector<ATok>& t) { return impl->tok->add_tokens(conv(t)); }
int Tokenizer::add_special_tokens(const std::vector<ATok>& t) { return impl->tok->add_special_tokens(conv(t)); }

template <class T>
static void move_tokenizer(std::unique_ptr<T>& t) {
  if constexpr (std::is_move_constructible_v<T>) t = std::unique_ptr<T>(new T(std::move(*t)));
}
void Tokenizer::move() { move_tokenizer(impl->tok); }

std::string to_utf8(const std::u32string& s) { return ::convert_to_string(w(s)); }
std::u32string from_utf8(const std::string& s) { return u(::convert_from_string(s)); }
std::vector<std::pair<int, std::string>> byte_alphabet() {
  std::vector<std::pair<int, std::string>> r;
  for (auto& p : ::bytes_char()) r.push_back({p.first, p.second});
  return r;
}
}  // namespace sut
