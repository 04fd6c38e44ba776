// Reference model: an independent, slow, direct statement of what each
// component should do, working on characters that carry the range of original
// characters they came from.
#pragma once
#include <map>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#include "json.h"
#include "sut.h"
#include "text.h"

namespace ref {
struct Ch {
  char32_t c;
  int s, e;  // range of original characters
};
typedef std::vector<Ch> Text;
Text original(const U& s);
U chars(const Text& t);
Text slice(const Text& t, int b, int e);

enum Form { NFC, NFD, NFKC, NFKD };
U form(const U& s, Form f);  // the Unicode algorithm from character data
Text normalize(const J& spec, Text t);
U normalize(const J& spec, const U& s);

struct RPiece {
  int b, e;  // in the normalized text
  std::vector<Tok> toks;
};
struct PreText {
  Text text;
  std::vector<RPiece> pieces;
  bool ambiguous = false;  // prefix space before white space other than a space
};
PreText whole(const Text& t);
PreText pre_tokenize(const J& spec, PreText p);
std::vector<Piece> pieces(const PreText& p);
// ranges of the pieces of the GPT-2 pattern
std::vector<std::pair<int, int>> gpt2_split(const U& s);
const std::vector<std::string>& byte_chars();  // byte -> UTF-8 of its character
std::string to_byte_chars(const std::string& bytes);

// A tiny regular-expression language with its own matcher.
struct Rx {
  // AHEAD .. NOT_BEHIND: one character that has to be there or not; START, END of the input,
  // DOLLAR: or before its last line break; BOUNDARY of words
  enum Kind { CLASS, SEQ, ALT, REP, AHEAD, NOT_AHEAD, BEHIND, NOT_BEHIND, START, END, DOLLAR, BOUNDARY, NOT_BOUNDARY } kind = CLASS;
  std::string cls;         // CLASS and the looks around: its ICU text
  std::vector<Rx> kids;    // SEQ, ALT, REP (one)
  int min = 0, max = -1;   // REP
  int hurry = 0;           // REP: 0 greedy, 1 lazy, 2 possessive
};
std::string icu(const Rx& r);
bool class_has(const std::string& cls, char32_t c);
// leftmost matches as find-all yields them (ends after starts or empty)
std::vector<std::pair<int, int>> find_all(const Rx& r, const U& s);
void put_rx(const std::string& icu_text, const Rx& r);  // known to pre_tokenize

struct Model {
  explicit Model(const J& spec);
  bool wordpiece = false;
  std::unordered_map<std::string, int> vocab;
  std::unordered_map<int, std::string> rev;
  std::string unk, prefix, suffix;
  int max_chars = 0, longest = 0;
  bool fuse = false, fallback = false, ignore = false;
  double dropout = 0;
  std::map<std::pair<std::string, std::string>, std::pair<int, std::string>> merges;
  // dropped: characters the model could not represent and left out
  std::vector<Tok> tokenize(const U& word, bool* dropped) const;
  // initial symbols of BPE: token string and length in characters (bytes/len)
  struct Sym {
    std::string t;
    int b, e;  // bytes of the word
  };
  std::vector<Sym> initial(const U& word, bool* dropped) const;
};

struct Added {
  std::map<std::string, int> ids;
  std::map<int, ATok> by_id;
  std::vector<ATok> order;
  std::set<std::string> special;
  // returns how many had content
  int add(const std::vector<ATok>& toks, const Model* m);
  // cuts and normalizes; ambiguous when two tokens share a pattern
  PreText extract(const J& normalizer, const U& text, bool* ambiguous) const;
};

Enc encode_pieces(const PreText& p);
Enc truncate(const J& spec, const Enc& e, int n_added, bool* rejects);
Enc pad(const J& spec, const Enc& e);
Enc post(const J& spec, const Enc& e, bool add_special);
std::vector<std::string> decode(const J& spec, std::vector<std::string> t);

struct Tokenizer {
  explicit Tokenizer(const J& config);
  J config;
  std::optional<Model> model;
  bool has_added = false;
  Added added;
  struct Flags {
    bool dropped = false, ambiguous = false, rejects = false;
  };
  int add_tokens(const std::vector<ATok>& t);
  PreText pre(const U& text, Flags* f) const;      // up to pre-tokenization
  PreText modelled(const U& text, Flags* f) const;  // up to the model
  Enc encode(const U& text, bool add_special, Flags* f) const;
  std::string decode(const std::vector<int>& ids, bool skip_special) const;
};
ATok atok_from(const J& j);
J to_json(const ATok& t);
}  // namespace ref
