#include "text.h"

#include <algorithm>

#include <stdio.h>
#include <unicode/uchar.h>

#include "engine.h"

void utf8_append(std::string& out, char32_t c) {
  if (c < 0x80) {
    out += static_cast<char>(c);
  } else if (c < 0x800) {
    out += static_cast<char>(0xc0 | c >> 6);
    out += static_cast<char>(0x80 | (c & 63));
  } else if (c < 0x10000) {
    out += static_cast<char>(0xe0 | c >> 12);
    out += static_cast<char>(0x80 | (c >> 6 & 63));
    out += static_cast<char>(0x80 | (c & 63));
  } else {
    out += static_cast<char>(0xf0 | c >> 18);
    out += static_cast<char>(0x80 | (c >> 12 & 63));
    out += static_cast<char>(0x80 | (c >> 6 & 63));
    out += static_cast<char>(0x80 | (c & 63));
  }
}
std::string utf8(const U& s) {
  std::string r;
  for (char32_t c : s) utf8_append(r, c);
  return r;
}
std::string utf8(char32_t c) {
  std::string r;
  utf8_append(r, c);
  return r;
}
bool utf8_valid(const std::string& s, U* out) {
  if (out) out->clear();
  for (size_t i = 0; i < s.size();) {
    unsigned char b = s[i];
    int n;
    char32_t c, min;
    if (b < 0x80) {
      n = 1, c = b, min = 0;
    } else if (b >= 0xc0 && b < 0xe0) {
      n = 2, c = b & 31, min = 0x80;
    } else if (b >= 0xe0 && b < 0xf0) {
      n = 3, c = b & 15, min = 0x800;
    } else if (b >= 0xf0 && b < 0xf8) {
      n = 4, c = b & 7, min = 0x10000;
    } else {
      return false;
    }
    if (i + n > s.size()) return false;
    for (int k = 1; k < n; k++) {
      unsigned char t = s[i + k];
      if ((t & 0xc0) != 0x80) return false;
      c = c << 6 | (t & 63);
    }
    if (c < min || c > 0x10ffff || (c >= 0xd800 && c < 0xe000)) return false;
    if (out) out->push_back(c);
    i += n;
  }
  return true;
}
U utf8_decode(const std::string& s) {
  U r;
  if (!utf8_valid(s, &r)) {
    // harness-internal strings are valid; keep going readably when the
    // library hands back something else
    r.clear();
    for (unsigned char c : s) r.push_back(c < 0x80 ? c : 0xfffd);
  }
  return r;
}

bool is_ws(char32_t c) {
  return (c >= 9 && c <= 13) || c == 0x20 || c == 0x85 || c == 0xa0 ||
         c == 0x1680 || (c >= 0x2000 && c <= 0x200a) || c == 0x2028 ||
         c == 0x2029 || c == 0x202f || c == 0x205f || c == 0x3000;
}
static int gc(char32_t c) { return u_charType(c); }
bool is_letter(char32_t c) {
  int t = gc(c);
  return t == U_UPPERCASE_LETTER || t == U_LOWERCASE_LETTER ||
         t == U_TITLECASE_LETTER || t == U_MODIFIER_LETTER || t == U_OTHER_LETTER;
}
bool is_number(char32_t c) {
  int t = gc(c);
  return t == U_DECIMAL_DIGIT_NUMBER || t == U_LETTER_NUMBER || t == U_OTHER_NUMBER;
}
bool is_mn(char32_t c) { return gc(c) == U_NON_SPACING_MARK; }
bool is_mark(char32_t c) {
  int t = gc(c);
  return t == U_NON_SPACING_MARK || t == U_COMBINING_SPACING_MARK || t == U_ENCLOSING_MARK;
}
bool is_other(char32_t c) {
  int t = gc(c);
  return t == U_CONTROL_CHAR || t == U_FORMAT_CHAR || t == U_SURROGATE || t == U_PRIVATE_USE_CHAR;
}
bool is_bert_punct(char32_t c) {
  if ((c >= 33 && c <= 47) || (c >= 58 && c <= 64) || (c >= 91 && c <= 96) ||
      (c >= 123 && c <= 126))
    return true;
  int t = gc(c);
  return t == U_DASH_PUNCTUATION || t == U_START_PUNCTUATION ||
         t == U_END_PUNCTUATION || t == U_CONNECTOR_PUNCTUATION ||
         t == U_OTHER_PUNCTUATION || t == U_INITIAL_PUNCTUATION ||
         t == U_FINAL_PUNCTUATION;
}
bool is_word_char(char32_t c) {
  return u_hasBinaryProperty(c, UCHAR_ALPHABETIC) || is_mark(c) ||
         gc(c) == U_DECIMAL_DIGIT_NUMBER || gc(c) == U_CONNECTOR_PUNCTUATION ||
         c == 0x200c || c == 0x200d;
}
bool in_domain(char32_t c) {
  if (c > 0x10ffff) return false;
  if (c >= 0x2b820 && c <= 0x2b91f) return false;
  int t = gc(c);
  return t != U_UNASSIGNED && t != U_SURROGATE;
}
char32_t simple_lower(char32_t c) { return u_tolower(c); }

static const char32_t marks[] = {0x301, 0x300, 0x308, 0x327, 0x323, 0x30a, 0x328,
                                 0x345, 0x302, 0x5b0, 0x64b, 0x3099, 0x309a,
                                 0x1d165, 0x20dd, 0x903, 0x93e, 0xfe0f, 0x483};
static const char32_t accented[] = {
    0xe9, 0xe8, 0xc9, 0xf1, 0xfc, 0xe7, 0xc5, 0xdf, 0xf8, 0x1e69, 0x1ec7, 0x1d6,
    0x439, 0x401, 0x3ac, 0x1fb3, 0x1f82, 0x131, 0x149, 0x1c5, 0x17f, 0x1e9b,
    0x130, 0x958, 0x9cb, 0xb94, 0x622, 0x304c, 0x30d1};
static const char32_t compat[] = {0xfb01, 0x2460, 0xfdfa, 0x338f, 0xbd, 0x212b,
                                  0x212a, 0x2126, 0xff21, 0xff76, 0xff9e, 0x3392,
                                  0xb2, 0x2167, 0x1d7ce, 0x1d49c, 0xfb03, 0xa8,
                                  0xb4, 0x2026, 0x1f130, 0xf900, 0x2f800, 0x1d15e,
                                  0xfe49, 0x3131, 0x132, 0x2000, 0xaf, 0x1f88, 0xac7};
static const char32_t controls[] = {0, 1, 7, 8, 0x1b, 0x7f, 0x80, 0x85, 0x9f,
                                    0xad, 0x200b, 0x200d, 0x200e, 0x202e, 0x2060,
                                    0xfeff, 0xfffd, 0xe000, 0xf8ff, 0xe0001, 0x10fffd, 0xf0000, 0x61c};
static const char32_t spaces[] = {' ', '\t', '\n', '\r', 0xb, 0xc, 0xa0, 0x1680,
                                  0x2003, 0x200a, 0x2028, 0x2029, 0x202f, 0x205f,
                                  0x3000, 0x85};
static const char32_t scripts[] = {
    0x416, 0x436, 0x3a3, 0x3c3, 0x3c2, 0x3b1, 0x531, 0x561, 0x10a0, 0x10d0,
    0x1c90, 0x13a0, 0xab70, 0x5d0, 0x627, 0x644, 0x905, 0x915, 0xe01, 0xe33,
    0x1e9e, 0x2c00, 0xa640, 0x10400, 0x10428, 0x1e900, 0x16a0, 0x12a0, 0x1780, 0xf40, 0x104b0};
static const char32_t cjk[] = {0x4e16, 0x754c, 0x4e00, 0x9fff, 0x3400, 0x4dbf,
                               0x20000, 0x2a6df, 0x2a700, 0x2b740, 0x2b81d,
                               0x2b920, 0x2ceaf, 0xf900, 0xfad9, 0x2f800,
                               0x2fa1d, 0x3042, 0x30a2, 0x3105, 0x3007, 0x3021,
                               0x33ff, 0x4dc0, 0xa000, 0x30000, 0x2ebf0, 0x2ceb0, 0x3005, 0xfb00, 0x2f00, 0x9ffc, 0x4dff};
static const char32_t digits[] = {'0', '1', '9', 0x663, 0x967, 0xb2, 0x2164,
                                  0xbc, 0x1d7d8, 0x3007, 0xff15, 0x2189, 0x3248};
static const char32_t punct[] = {'.', ',', '!', '?', '\'', '-', '(', ')', '"',
                                 '$', '+', '<', '=', '>', '^', '`', '|', '~', '#',
                                 '@', '&', '*', '/', '\\', '[', ']', '_', '{', '}',
                                 ':', ';', '%', 0x2014, 0x2019, 0x201c, 0xab,
                                 0x3001, 0x3002, 0xbf, 0x60c, 0x20ac, 0xa3, 0xd7,
                                 0x2044, 0x10100, 0xff01, 0x2e3a, 0x2581, 0x120, 0x10a, 0xb7};
static const char32_t emoji[] = {0x1f600, 0x1f469, 0x1f3fd, 0x2764, 0x1f1ee,
                                 0x1f9d1, 0x2603, 0x1f680};
template <size_t N>
static char32_t pick(Src& s, const char32_t (&a)[N]) {
  return a[s.draw(N)];
}

static char32_t random_assigned(Src& s) {
  for (int tries = 0; tries < 8; tries++) {
    char32_t c;
    switch (s.weighted({3, 3, 3, 2})) {
      case 0: c = s.draw(0x800); break;
      case 1: c = s.draw(0x10000); break;
      case 2: c = 0x10000 + s.draw(0x10000); break;
      default: c = 0x20000 + s.draw(0x11000); break;
    }
    if (in_domain(c)) return c;
  }
  return 'q';
}

static char32_t gen_char0(Src& s);
char32_t gen_char(Src& s) {
  char32_t c = gen_char0(s);
  return in_domain(c) ? c : U'x';
}
static char32_t gen_char0(Src& s) {
  switch (s.weighted({30, 8, 10, 6, 5, 3, 4, 6, 5, 3, 3, 5, 3, 2})) {
    case 0: return 'a' + s.draw(26);
    case 1: return s.chance(1, 4) ? pick(s, spaces) : ' ';
    case 2: return pick(s, punct);
    case 3: return 'A' + s.draw(26);
    case 4: return pick(s, digits);
    case 5: return pick(s, controls);
    case 6: return pick(s, marks);
    case 7: return pick(s, accented);
    case 8: return pick(s, cjk);
    case 9: return pick(s, compat);
    case 10: return pick(s, emoji);
    case 11: return pick(s, scripts);
    case 12: {
      switch (s.draw(4)) {
        case 0: return 0xac00 + s.draw(11172);
        case 1: return 0x1100 + s.draw(19);
        case 2: return 0x1161 + s.draw(21);
        default: return 0x11a7 + s.draw(28);
      }
    }
    default: return random_assigned(s);
  }
}

U gen_word(Src& s, int max_len) {
  U r;
  int n = s.range(1, max_len);
  switch (s.weighted({8, 3, 2, 2})) {
    case 0:
      for (int i = 0; i < n; i++) r += 'a' + s.draw(26);
      break;
    case 1:
      for (int i = 0; i < n; i++) r += s.chance(1, 3) ? pick(s, accented) : 'a' + s.draw(4);
      break;
    case 2:
      for (int i = 0; i < n; i++) r += s.coin() ? pick(s, cjk) : pick(s, scripts);
      break;
    default:
      for (int i = 0; i < n; i++) r += gen_char(s);
  }
  return r;
}

U gen_unit(Src& s) {
  static const char* contractions[] = {"'s", "'t", "'re", "'ve", "'m", "'ll", "'d",
                                       "n't", " do not", "'S", " ' ", "'l", "'v"};
  switch (s.weighted({20, 12, 12, 6, 6, 4, 4, 1})) {
    case 0: return U(1, gen_char(s));
    case 1: return gen_word(s, 6);
    case 2: return U(1, U' ');
    case 3: {  // a base with marks in any order
      U r(1, s.coin() ? pick(s, accented) : 'a' + s.draw(26));
      int n = s.range(1, 4);
      for (int i = 0; i < n; i++) r += pick(s, marks);
      return r;
    }
    case 4: {  // a run
      char32_t c = s.coin() ? pick(s, spaces) : gen_char(s);
      return U(s.range(1, 5), c);
    }
    case 5: {
      U r;
      for (const char* p = contractions[s.draw(13)]; *p; p++) r += *p;
      return r;
    }
    case 7: {  // a long run, of one character or of marks
      int n = s.range(20, 80);
      if (s.coin()) return U(n, s.coin() ? pick(s, spaces) : gen_char(s));
      U r(1, s.coin() ? pick(s, accented) : 'a' + s.draw(26));
      char32_t a = pick(s, marks), b = pick(s, marks);
      for (int i = 0; i < n; i++) r += i % 3 ? a : b;
      return r;
    }
    default: {  // decomposed Hangul
      U r;
      r += 0x1100 + s.draw(19);
      r += 0x1161 + s.draw(21);
      if (s.coin()) r += 0x11a7 + s.draw(28);
      return r;
    }
  }
}

U gen_text(Src& s, const TextOpts& o) {
  U r;
  int n = s.size_upto(o.max_pieces);
  for (int i = 0; i < n; i++) {
    if (!o.hints.empty() && s.draw(20) < static_cast<uint64_t>(o.hint_weight))
      r += s.pick(o.hints);
    else
      r += gen_unit(s);
  }
  return r;
}

int big_size(Src& s, int max) {
  static const int sizes[] = {130, 260, 520, 1030, 2060, 4100, 8200, 16500, 33000, 66000};
  int k = 0;
  while (k < 10 && sizes[k] <= max) k++;
  // the larger ones more often
  int i = k <= 1 ? 0 : std::max<int>(s.draw(k), s.draw(k));
  return sizes[i] + s.range(0, 60) - 30;
}
U gen_big_text(Src& s, const TextOpts& o, int max) {
  int n = big_size(s, max);
  std::vector<U> blocks;
  TextOpts small = o;
  small.max_pieces = 12;
  for (int k = s.range(1, 5); k > 0; k--) {
    U b = gen_text(s, small);
    blocks.push_back(b.empty() ? U(U"ab ") : b);
  }
  Lcg next(s.draw(1 << 16));
  U r = s.chance(1, 4) ? U(s.range(1, 4000) % n, gen_char(s)) : U();
  r.reserve(n + 200);
  bool one = s.chance(1, 4), sparse = n > o.dense_max;
  if (sparse) r.resize(r.size() % 500);
  while ((int)r.size() < n) {
    if (sparse)
      for (int k = next(n / 10); k >= 0; k -= 8) r += U"abcdefgh";
    r += one ? blocks[0] : blocks[next(blocks.size())];
  }
  r.resize(n);
  return r;
}

std::string show(const U& s) {
  std::string r = "\"";
  char buf[16];
  for (char32_t c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += static_cast<char>(c);
    } else if (c < 0x7f && c >= 0x20) {
      r += static_cast<char>(c);
    } else if (is_letter(c) && c < 0x10000) {
      utf8_append(r, c);
    } else {
      snprintf(buf, sizeof buf, "\\u{%x}", static_cast<unsigned>(c));
      r += buf;
    }
  }
  return r + "\"";
}
