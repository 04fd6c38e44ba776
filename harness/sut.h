// The library under test behind plain types, so that only sut.cpp sees its
// headers. Uses only the public interface.
#pragma once
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>

struct J;
namespace vt {
struct Tok {
  int id = 0;
  std::string value;
  int s = 0, e = 0;
  bool operator==(const Tok& o) const {
    return id == o.id && value == o.value && s == o.s && e == o.e;
  }
};
struct Piece {
  std::string text;
  int s = 0, e = 0;
  std::vector<Tok> toks;
  bool operator==(const Piece& o) const {
    return text == o.text && s == o.s && e == o.e && toks == o.toks;
  }
};
struct Enc {
  std::vector<int> ids, type_ids;
  std::vector<std::string> tokens;
  std::vector<std::optional<int>> words;
  std::vector<std::pair<int, int>> offsets;
  std::vector<int> special, attention;
  std::vector<Enc> over;
  bool operator==(const Enc& o) const;
};
struct ATok {
  int id = 0;
  std::string content;
  bool single_word = false, lstrip = false, rstrip = false, normalized = true,
       special = false;
};
}  // namespace vt
#ifndef SUT_IMPL
using namespace vt;
#endif

namespace sut {
// built by calling constructors rather than from a configuration
struct Direct {};
using vt::ATok;
using vt::Enc;
using vt::Piece;
using vt::Tok;
struct Impl;
class PTS {
 public:
  explicit PTS(const std::u32string& text);
  PTS(const PTS& o);
  PTS& operator=(const PTS& o);
  ~PTS();
  std::vector<Piece> pieces() const;
  void set_pieces(const std::vector<Piece>& p);
  std::unique_ptr<Impl> impl;
};
class Normalizer {
 public:
  explicit Normalizer(const std::string& json);
  Normalizer(Direct, const J& spec);
  explicit Normalizer(Direct);  // with the default arguments
  ~Normalizer();
  bool null() const;
  std::u32string normalize(const std::u32string& text) const;
  // the members one after another, without going through text in between
  static std::u32string fold(const std::vector<const Normalizer*>& ns,
                             const std::u32string& text);
  PTS normalize_pts(const std::u32string& text) const;
  std::unique_ptr<Impl> impl;
};
class PreTokenizer {
 public:
  explicit PreTokenizer(const std::string& json);
  PreTokenizer(Direct, const J& spec);
  ~PreTokenizer();
  bool null() const;
  PTS apply(const PTS& p) const;
  std::unique_ptr<Impl> impl;
};
class Model {
 public:
  explicit Model(const std::string& json);
  Model(Direct, const J& spec);
  explicit Model(Direct, const J& vocab, int);  // with the default arguments
  ~Model();
  bool null() const;
  PTS tokenize(const PTS& p) const;
  std::optional<int> token_to_id(const std::string& t) const;
  std::optional<std::string> id_to_token(int id) const;
  int vocab_size() const;
  std::unique_ptr<Impl> impl;
};
class AddedVocab {
 public:
  AddedVocab();
  ~AddedVocab();
  int add(const std::vector<ATok>& toks, const Model* m, const Normalizer* n,
          bool special);
  PTS extract(const Normalizer* n, const std::u32string& text) const;
  bool is_special(const std::string& content) const;
  std::optional<std::string> id_to_token(int id) const;
  std::unique_ptr<Impl> impl;
};
class Post {
 public:
  explicit Post(const std::string& json);
  Post(Direct, const J& spec);
  ~Post();
  bool null() const;
  Enc process(const Enc& e, bool add_special) const;
  std::unique_ptr<Impl> impl;
};
class Decoder {
 public:
  explicit Decoder(const std::string& json);
  Decoder(Direct, const J& spec);
  explicit Decoder(Direct);  // with the default arguments
  ~Decoder();
  bool null() const;
  std::vector<std::string> decode(const std::vector<std::string>& t) const;
  std::unique_ptr<Impl> impl;
};
class Trunc {
 public:
  explicit Trunc(const std::string& json);
  Trunc(Direct, const J& spec);
  ~Trunc();
  Enc apply(const Enc& e) const;
  std::unique_ptr<Impl> impl;
};
class Pad {
 public:
  explicit Pad(const std::string& json);
  Pad(Direct, const J& spec);
  ~Pad();
  Enc apply(const Enc& e) const;
  std::unique_ptr<Impl> impl;
};
class Tokenizer {
 public:
  // config text, or the directory of a tokenizer.json
  explicit Tokenizer(const std::string& config);
  Tokenizer(const std::string& path, const std::string& config);
  ~Tokenizer();
  Enc encode(const std::u32string& text, bool add_special = true);
  Enc encode_default(const std::u32string& text);
  std::string decode_default(const std::vector<int>& ids);
  std::string decode(const std::vector<int>& ids, bool skip_special = true);
  int add_tokens(const std::vector<ATok>& t);
  int add_special_tokens(const std::vector<ATok>& t);
  // moves the library's tokenizer to another place and lets the old one go;
  // nothing where it cannot be moved
  void move();
  std::unique_ptr<Impl> impl;
};
bool direct_available();  // the Direct constructors and the functions for defaults
ATok default_added(int id, const std::string& content);
ATok empty_added();
std::string to_utf8(const std::u32string& s);    // the library's conversion
std::u32string from_utf8(const std::string& s);  // the library's conversion
std::vector<std::pair<int, std::string>> byte_alphabet();
}  // namespace sut
