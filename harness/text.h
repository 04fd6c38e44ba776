// Unicode helpers (independent of the library) and text generators.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

class Src;
typedef std::u32string U;

void utf8_append(std::string& out, char32_t c);
std::string utf8(const U& s);
std::string utf8(char32_t c);
U utf8_decode(const std::string& s);           // valid input only
bool utf8_valid(const std::string& s, U* out); // strict (no surrogates)

bool is_ws(char32_t c);        // White_Space
bool is_letter(char32_t c);    // \p{L}
bool is_number(char32_t c);    // \p{N}
bool is_mark(char32_t c);      // \p{M}
bool is_mn(char32_t c);        // \p{Mn}
bool is_other(char32_t c);     // Cc, Cf, Cs, Co
bool is_bert_punct(char32_t c);
bool is_word_char(char32_t c); // \w
bool in_domain(char32_t c);    // assigned, not a surrogate, not a range whose BERT class is disputed
char32_t simple_lower(char32_t c);

struct TextOpts {
  std::vector<U> hints;  // strings to mix in
  int hint_weight = 12;
  int max_pieces = 60;
  // longer texts (gen_big_text) are mostly plain letters: the library takes
  // quadratic time in the characters it changes
  int dense_max = 66000;
};
char32_t gen_char(Src& s);
// one character of a family: 0 ASCII letter, 1 accented, 2 CJK, ...
U gen_unit(Src& s);
U gen_text(Src& s, const TextOpts& o);
// long text, of about one of the sizes up to max at which implementations
// change their ways, made of a few short blocks
U gen_big_text(Src& s, const TextOpts& o, int max);
int big_size(Src& s, int max);
// a cheap sequence fixed by one choice
struct Lcg {
  explicit Lcg(uint64_t x) : x(x) {}
  uint64_t x;
  uint32_t operator()(uint32_t n) {
    x = x * 6364136223846793005ULL + 1442695040888963407ULL;
    return (x >> 33) % n;
  }
};
U gen_word(Src& s, int max_len);
std::string show(const U& s);  // quoted, unusual characters escaped
