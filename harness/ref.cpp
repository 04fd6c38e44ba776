#include "ref.h"

#include <stdio.h>
#include <unicode/normalizer2.h>
#include <unicode/uchar.h>
#include <unicode/unistr.h>

#include <algorithm>
#include <functional>

namespace ref {
Text original(const U& s) {
  Text t;
  for (size_t i = 0; i < s.size(); i++) t.push_back({s[i], (int)i, (int)i + 1});
  return t;
}
U chars(const Text& t) {
  U r;
  for (auto& c : t) r += c.c;
  return r;
}
Text slice(const Text& t, int b, int e) { return Text(t.begin() + b, t.begin() + e); }

// ------------------------------------------------------------ Unicode forms
static const icu::Normalizer2* n2(Form f) {
  UErrorCode st = U_ZERO_ERROR;
  switch (f) {
    case NFC: return icu::Normalizer2::getNFCInstance(st);
    case NFD: return icu::Normalizer2::getNFDInstance(st);
    case NFKC: return icu::Normalizer2::getNFKCInstance(st);
    default: return icu::Normalizer2::getNFKDInstance(st);
  }
}
static void decompose(char32_t c, const icu::Normalizer2* data, U& out) {
  if (c >= 0xac00 && c < 0xac00 + 11172) {
    int i = c - 0xac00;
    out += 0x1100 + i / 588;
    out += 0x1161 + i % 588 / 28;
    if (i % 28) out += 0x11a7 + i % 28;
    return;
  }
  icu::UnicodeString d;
  if (!data->getRawDecomposition(c, d)) {
    out += c;
    return;
  }
  for (int i = 0; i < d.length(); i = d.moveIndex32(i, 1)) decompose(d.char32At(i), data, out);
}
static int ccc(char32_t c) { return u_getCombiningClass(c); }
U form(const U& s, Form f) {
  // the data of the composing instances carries the mappings
  const icu::Normalizer2* data = n2(f == NFC || f == NFD ? NFC : NFKC);
  U d;
  for (char32_t c : s) decompose(c, data, d);
  for (size_t i = 0; i < d.size();) {
    if (ccc(d[i]) == 0) {
      i++;
      continue;
    }
    size_t j = i;
    while (j < d.size() && ccc(d[j]) != 0) j++;
    std::stable_sort(d.begin() + i, d.begin() + j,
                     [](char32_t a, char32_t b) { return ccc(a) < ccc(b); });
    i = j;
  }
  if (f == NFD || f == NFKD) return d;
  const icu::Normalizer2* comp = n2(NFC);
  U r;
  int starter = -1, last_cc = 0;
  for (char32_t c : d) {
    int cc = ccc(c);
    if (starter >= 0) {
      bool adjacent = starter == (int)r.size() - 1;
      bool blocked = !adjacent && (last_cc >= cc);
      if (!blocked) {
        char32_t a = r[starter];
        UChar32 p = U_SENTINEL;
        if (a >= 0x1100 && a < 0x1113 && c >= 0x1161 && c < 0x1176)
          p = 0xac00 + ((a - 0x1100) * 21 + (c - 0x1161)) * 28;
        else if (a >= 0xac00 && a < 0xac00 + 11172 && (a - 0xac00) % 28 == 0 &&
                 c > 0x11a7 && c < 0x11c3)
          p = a + (c - 0x11a7);
        else
          p = comp->composePair(a, c);
        if (p >= 0) {
          r[starter] = p;
          continue;
        }
      }
    }
    if (cc == 0) starter = r.size();
    last_cc = cc;
    r += c;
  }
  return r;
}
static Text unicode_form(const Text& t, Form f) {
  Text r;
  const icu::Normalizer2* n = n2(f);
  for (size_t i = 0; i < t.size();) {
    size_t j = i + 1;
    while (j < t.size() && !n->hasBoundaryBefore(t[j].c)) j++;
    U seg = chars(slice(t, i, j)), nf = form(seg, f);
    for (size_t k = 0; k < nf.size(); k++) {
      if (nf == seg)
        r.push_back(t[i + k]);
      else
        r.push_back({nf[k], t[i].s, t[j - 1].e});
    }
    i = j;
  }
  return r;
}

// --------------------------------------------------------------- normalizers
static bool bert_cjk(char32_t c) {
  static const char32_t ranges[][2] = {
      {0x4E00, 0x9FFF},   {0x3400, 0x4DBF},   {0x20000, 0x2A6DF}, {0x2A700, 0x2B73F},
      {0x2B740, 0x2B81F}, {0x2B920, 0x2CEAF}, {0xF900, 0xFAFF},   {0x2F800, 0x2FA1F}};
  for (auto& r : ranges)
    if (c >= r[0] && c <= r[1]) return true;
  return false;
}
Text normalize(const J& n, Text t) {
  if (n.null()) return t;
  const std::string type = n["type"].str();
  Text r;
  if (type == "Sequence") {
    for (auto& k : n["normalizers"].a) t = normalize(k, t);
    return t;
  }
  if (type == "NFC") return unicode_form(t, NFC);
  if (type == "NFD") return unicode_form(t, NFD);
  if (type == "NFKC") return unicode_form(t, NFKC);
  if (type == "NFKD") return unicode_form(t, NFKD);
  if (type == "BertNormalizer") {
    if (n["clean_text"].flag()) {
      for (auto& c : t) {
        bool keep_ctl = c.c == '\t' || c.c == '\n' || c.c == '\r';
        if (c.c == 0 || c.c == 0xfffd || (is_other(c.c) && !keep_ctl)) continue;
        r.push_back(c);
        if (keep_ctl || is_ws(c.c)) r.back().c = ' ';
      }
      t = r;
    }
    if (n["handle_chinese_chars"].flag()) {
      r.clear();
      for (auto& c : t) {
        if (bert_cjk(c.c)) {
          r.push_back({' ', c.s, c.e});
          r.push_back(c);
          r.push_back({' ', c.s, c.e});
        } else {
          r.push_back(c);
        }
      }
      t = r;
    }
    bool lower = n["lowercase"].flag();
    if (n["strip_accents"].null() ? lower : n["strip_accents"].flag()) {
      r.clear();
      for (auto& c : unicode_form(t, NFD))
        if (!is_mn(c.c)) r.push_back(c);
      t = r;
    }
    if (lower)
      for (auto& c : t) c.c = simple_lower(c.c);
    return t;
  }
  if (type == "Prepend") {
    U p = utf8_decode(n["prepend"].str());
    if (t.empty()) return t;
    for (char32_t c : p) r.push_back({c, t[0].s, t[0].e});
    r.insert(r.end(), t.begin(), t.end());
    return r;
  }
  if (type == "Replace") {
    U p = utf8_decode(n["pattern"]["String"].str()), w = utf8_decode(n["content"].str());
    if (p.empty()) return t;
    for (size_t i = 0; i < t.size();) {
      size_t k = 0;
      while (k < p.size() && i + k < t.size() && t[i + k].c == p[k]) k++;
      if (k == p.size()) {
        for (char32_t c : w) r.push_back({c, t[i].s, t[i + k - 1].e});
        i += k;
      } else {
        r.push_back(t[i++]);
      }
    }
    return r;
  }
  if (type == "Strip") {
    size_t b = 0, e = t.size();
    if (n["strip_left"].flag())
      while (b < e && is_ws(t[b].c)) b++;
    if (n["strip_right"].flag())
      while (e > b && is_ws(t[e - 1].c)) e--;
    return slice(t, b, e);
  }
  if (type == "StripAccents") {
    for (auto& c : t)
      if (!is_mark(c.c)) r.push_back(c);
    return r;
  }
  return t;
}
U normalize(const J& spec, const U& s) { return chars(normalize(spec, original(s))); }

// ------------------------------------------------------------ pre-tokenizers
PreText whole(const Text& t) {
  PreText p;
  p.text = t;
  p.pieces.push_back({0, (int)t.size(), {}});
  return p;
}
std::vector<Piece> pieces(const PreText& p) {
  std::vector<Piece> r;
  for (auto& x : p.pieces)
    r.push_back({utf8(chars(slice(p.text, x.b, x.e))), x.b, x.e, x.toks});
  return r;
}
std::vector<std::pair<int, int>> gpt2_split(const U& s) {
  std::vector<std::pair<int, int>> r;
  int n = s.size();
  for (int i = 0; i < n;) {
    auto at = [&](int k) -> char32_t { return k < n ? s[k] : 0xffffffff; };
    int end = -1;
    if (s[i] == '\'') {
      char32_t a = at(i + 1), b = at(i + 2);
      if (a == 's' || a == 't') end = i + 2;
      else if ((a == 'r' && b == 'e') || (a == 'v' && b == 'e')) end = i + 3;
      else if (a == 'm') end = i + 2;
      else if (a == 'l' && b == 'l') end = i + 3;
      else if (a == 'd') end = i + 2;
    }
    auto run = [&](int from, auto pred) {
      int k = from;
      while (k < n && pred(s[k])) k++;
      return k;
    };
    auto other = [](char32_t c) { return !is_ws(c) && !is_letter(c) && !is_number(c); };
    for (int kind = 0; kind < 3 && end < 0; kind++) {
      int from = s[i] == ' ' ? i + 1 : i;
      int k = kind == 0 ? run(from, is_letter) : kind == 1 ? run(from, is_number) : run(from, other);
      if (k > from) end = k;
    }
    if (end < 0) {  // white space
      int k = run(i, is_ws);
      if (k == n || k - i == 1)
        end = k;
      else
        end = k - 1;
    }
    r.push_back({i, end});
    i = end;
  }
  return r;
}
const std::vector<std::string>& byte_chars() {
  static std::vector<std::string> r;
  if (r.empty()) {
    int extra = 0;
    for (int b = 0; b < 256; b++) {
      bool visible = (b >= 33 && b <= 126) || (b >= 161 && b <= 172) || (b >= 174);
      r.push_back(utf8(visible ? b : 256 + extra++));
    }
  }
  return r;
}
std::string to_byte_chars(const std::string& bytes) {
  std::string r;
  for (unsigned char b : bytes) r += byte_chars()[b];
  return r;
}

static std::map<std::string, Rx>& rx_table() {
  static std::map<std::string, Rx> t;
  return t;
}
void put_rx(const std::string& text, const Rx& r) { rx_table()[text] = r; }
std::string icu(const Rx& r) {
  std::string o;
  switch (r.kind) {
    case Rx::CLASS: return r.cls;
    case Rx::SEQ:
      for (auto& k : r.kids) o += icu(k);
      return "(?:" + o + ")";
    case Rx::ALT:
      for (size_t i = 0; i < r.kids.size(); i++) o += (i ? "|" : "") + icu(r.kids[i]);
      return "(?:" + o + ")";
    case Rx::REP:
      o = icu(r.kids[0]);
      if (r.min == 0 && r.max == -1) o += "*";
      else if (r.min == 1 && r.max == -1) o += "+";
      else if (r.min == 0 && r.max == 1) o += "?";
      else o += "{" + std::to_string(r.min) + "," + (r.max < 0 ? "" : std::to_string(r.max)) + "}";
      return o + (r.hurry == 1 ? "?" : r.hurry == 2 ? "+" : "");
    case Rx::AHEAD: return "(?=" + r.cls + ")";
    case Rx::NOT_AHEAD: return "(?!" + r.cls + ")";
    case Rx::BEHIND: return "(?<=" + r.cls + ")";
    case Rx::NOT_BEHIND: return "(?<!" + r.cls + ")";
    case Rx::START: return "^";
    case Rx::END: return "\\z";
    case Rx::DOLLAR: return "$";
    case Rx::BOUNDARY: return "\\b";
    case Rx::NOT_BOUNDARY: return "\\B";
  }
  return o;
}
static bool is_line_end(char32_t c) { return (c >= 10 && c <= 13) || c == 0x85 || c == 0x2028 || c == 0x2029; }
static bool is_word(char32_t c) {
  return u_hasBinaryProperty(c, UCHAR_ALPHABETIC) || (U_GET_GC_MASK((UChar32)c) & (U_GC_M_MASK | U_GC_ND_MASK | U_GC_PC_MASK)) || c == 0x200c || c == 0x200d;
}
// characters that are part of the one before them when word boundaries are looked for
static bool goes_along(char32_t c) { return u_hasBinaryProperty(c, UCHAR_GRAPHEME_EXTEND) || u_charType(c) == U_FORMAT_CHAR; }
static bool word_boundary(const U& s, int i) {
  bool here = false;
  if (i < (int)s.size()) {
    if (goes_along(s[i])) return false;
    here = is_word(s[i]);
  }
  while (i > 0 && goes_along(s[i - 1])) i--;
  return here != (i > 0 && is_word(s[i - 1]));
}
static bool at_dollar(const U& s, int i) {
  int n = s.size();
  if (i == n) return true;
  if (i == n - 1) return is_line_end(s[i]) && !(s[i] == '\n' && i > 0 && s[i - 1] == '\r');
  return i == n - 2 && s[i] == '\r' && s[i + 1] == '\n';
}
bool class_has(const std::string& k, char32_t c) {
  if (k == ".") return !is_line_end(c);
  if (k == "\\w") return is_word(c);
  if (k == "\\W") return !is_word(c);
  if (k == "\\d") return u_charType(c) == U_DECIMAL_DIGIT_NUMBER;
  if (k == "[^\\r\\n]") return c != '\r' && c != '\n';
  if (k == "\\p{Lu}") return u_charType(c) == U_UPPERCASE_LETTER;
  if (k == "\\p{M}") return is_mark(c);
  if (k == "\\s") return is_ws(c);
  if (k == "\\S") return !is_ws(c);
  if (k == "\\p{L}") return is_letter(c);
  if (k == "\\p{N}") return is_number(c);
  if (k == "\\p{P}") return is_bert_punct(c) && !(c < 128 && std::string("$+<=>^`|~").find((char)c) != std::string::npos);
  if (k == "[^\\s\\p{L}]") return !is_ws(c) && !is_letter(c);
  if (k == "[\\s\\S]") return true;
  if (k == "[a-m]") return c >= 'a' && c <= 'm';
  if (k == "[^a]") return c != 'a';
  if (k == "(?i:b)") return c == 'b' || c == 'B';
  if (k == "(?i:É)") return c == U'é' || c == U'É';
  U lit = utf8_decode(k);
  if (lit.size() == 2 && lit[0] == '\\') return c == lit[1];
  return lit.size() == 1 && c == lit[0];
}
// continuation-passing backtracking matcher, greedy, first alternative first
static bool match(const Rx& r, const U& s, int i, const std::function<bool(int)>& k);
static bool match_seq(const Rx& r, size_t n, const U& s, int i, const std::function<bool(int)>& k) {
  if (n == r.kids.size()) return k(i);
  return match(r.kids[n], s, i, [&](int j) { return match_seq(r, n + 1, s, j, k); });
}
static bool match_rep(const Rx& r, int n, const U& s, int i, const std::function<bool(int)>& k) {
  if (n == 0 && r.kids[0].kind == Rx::CLASS) {  // the same without recursion
    int j = i;
    auto more = [&] { return j < (int)s.size() && (r.max < 0 || j - i < r.max) && class_has(r.kids[0].cls, s[j]); };
    if (r.hurry == 1) {
      for (;; j++) {
        if (j - i >= r.min && k(j)) return true;
        if (!more()) return false;
      }
    }
    while (more()) j++;
    if (r.hurry == 2) return j - i >= r.min && k(j);
    for (; j - i >= r.min; j--)
      if (k(j)) return true;
    return false;
  }
  if (r.max < 0 || n < r.max) {
    if (match(r.kids[0], s, i, [&](int j) { return j > i && match_rep(r, n + 1, s, j, k); }))
      return true;
  }
  return n >= r.min && k(i);
}
static bool match(const Rx& r, const U& s, int i, const std::function<bool(int)>& k) {
  switch (r.kind) {
    case Rx::CLASS: return i < (int)s.size() && class_has(r.cls, s[i]) && k(i + 1);
    case Rx::SEQ: return match_seq(r, 0, s, i, k);
    case Rx::ALT:
      for (auto& a : r.kids)
        if (match(a, s, i, k)) return true;
      return false;
    case Rx::REP: return match_rep(r, 0, s, i, k);
    case Rx::AHEAD: return i < (int)s.size() && class_has(r.cls, s[i]) && k(i);
    case Rx::NOT_AHEAD: return !(i < (int)s.size() && class_has(r.cls, s[i])) && k(i);
    case Rx::BEHIND: return i > 0 && class_has(r.cls, s[i - 1]) && k(i);
    case Rx::NOT_BEHIND: return !(i > 0 && class_has(r.cls, s[i - 1])) && k(i);
    case Rx::START: return i == 0 && k(i);
    case Rx::END: return i == (int)s.size() && k(i);
    case Rx::DOLLAR: return at_dollar(s, i) && k(i);
    case Rx::BOUNDARY: return word_boundary(s, i) && k(i);
    case Rx::NOT_BOUNDARY: return !word_boundary(s, i) && k(i);
  }
  return false;
}
std::vector<std::pair<int, int>> find_all(const Rx& r, const U& s) {
  std::vector<std::pair<int, int>> out;
  int n = s.size();
  for (int i = 0; i <= n;) {
    int end = -1;
    if (match(r, s, i, [&](int j) { end = j; return true; })) {
      out.push_back({i, end});
      i = end > i ? end : i + 1;
    } else {
      i++;
    }
  }
  return out;
}
typedef std::vector<std::pair<std::pair<int, int>, bool>> Parts;
static Parts parts(const std::vector<std::pair<int, int>>& m, int n) {
  Parts r;
  int cur = 0;
  for (auto& x : m) {
    if (x.first > cur) r.push_back({{cur, x.first}, false});
    if (x.second > x.first) r.push_back({x, true});
    cur = std::max(cur, x.second);
  }
  if (cur < n) r.push_back({{cur, n}, false});
  return r;
}
template <class F>
static void split(PreText& p, F f, bool isolated) {
  std::vector<RPiece> r;
  for (auto& x : p.pieces) {
    if (!x.toks.empty()) {
      r.push_back(x);
      continue;
    }
    for (auto& q : f(chars(slice(p.text, x.b, x.e))))
      if (isolated || !q.second) r.push_back({x.b + q.first.first, x.b + q.first.second, {}});
  }
  p.pieces = r;
}
PreText pre_tokenize(const J& spec, PreText p) {
  if (spec.null()) return p;
  const std::string type = spec["type"].str();
  if (type == "Sequence") {
    for (auto& k : spec["pretokenizers"].a) p = pre_tokenize(k, p);
    return p;
  }
  if (type == "BertPreTokenizer") {
    split(p, [](const U& s) {
      std::vector<std::pair<int, int>> m;
      for (int i = 0; i < (int)s.size();) {
        int j = i;
        while (j < (int)s.size() && is_ws(s[j])) j++;
        if (j > i) m.push_back({i, j});
        i = std::max(j, i + 1);
      }
      return parts(m, s.size());
    }, false);
    split(p, [](const U& s) {
      std::vector<std::pair<int, int>> m;
      for (int i = 0; i < (int)s.size(); i++)
        if (is_bert_punct(s[i])) m.push_back({i, i + 1});
      return parts(m, s.size());
    }, true);
    return p;
  }
  if (type == "Split") {
    const Rx& rx = rx_table().at(spec["pattern"]["Regex"].str());
    bool inv = spec["invert"].flag();
    split(p, [&](const U& s) {
      Parts q = parts(find_all(rx, s), s.size());
      if (inv)
        for (auto& x : q) x.second = !x.second;
      return q;
    }, spec["behavior"].str() == "Isolated");
    return p;
  }
  if (type == "ByteLevel") {
    if (spec["add_prefix_space"].flag()) {
      PreText q;
      q.ambiguous = p.ambiguous;
      int at = 0;
      auto copy = [&](int end) {
        for (; at < end; at++) q.text.push_back(p.text[at]);
      };
      for (auto& x : p.pieces) {
        copy(x.b);
        RPiece y = x;
        y.b = q.text.size();
        if (x.toks.empty() && x.e > x.b) {
          const Ch& first = p.text[x.b];
          if (!is_ws(first.c))
            q.text.push_back({' ', first.s, first.e});
          else if (first.c != ' ')
            q.ambiguous = true;
        }
        copy(x.e);
        y.e = q.text.size();
        q.pieces.push_back(y);
      }
      copy(p.text.size());
      p = q;
    }
    if (spec["use_regex"].flag())
      split(p, [](const U& s) { return parts(gpt2_split(s), s.size()); }, true);
    else
      split(p, [](const U& s) { return parts({}, s.size()); }, true);
    PreText q;
    q.ambiguous = p.ambiguous;
    int at = 0;
    auto copy = [&](int end, bool map) {
      for (; at < end; at++) {
        const Ch& c = p.text[at];
        if (!map)
          q.text.push_back(c);
        else
          for (char32_t m : utf8_decode(to_byte_chars(utf8(c.c)))) q.text.push_back({m, c.s, c.e});
      }
    };
    for (auto& x : p.pieces) {
      copy(x.b, false);
      RPiece y = x;
      y.b = q.text.size();
      copy(x.e, x.toks.empty());
      y.e = q.text.size();
      q.pieces.push_back(y);
    }
    copy(p.text.size(), false);
    return q;
  }
  return p;
}

// -------------------------------------------------------------------- models
Model::Model(const J& spec) {
  wordpiece = spec["type"].str() == "WordPiece";
  for (auto& p : spec["vocab"].o) {
    vocab[p.first] = p.second.num();
    rev[p.second.num()] = p.first;
    longest = std::max<int>(longest, p.first.size());
  }
  unk = spec["unk_token"].str();
  prefix = spec["continuing_subword_prefix"].str();
  if (wordpiece) {
    max_chars = spec["max_input_chars_per_word"].num();
    return;
  }
  suffix = spec["end_of_word_suffix"].str();
  fuse = spec["fuse_unk"].flag();
  fallback = spec["byte_fallback"].flag();
  ignore = spec["ignore_merges"].flag();
  dropout = spec["dropout"].kind == J::DBL ? spec["dropout"].d : 0;
  int rank = 0;
  for (auto& m : spec["merges"].a) {
    size_t sp = m.s.find(' ');
    std::string a = m.s.substr(0, sp), b = m.s.substr(sp + 1);
    std::string nw = a + b.substr(prefix.size());
    if (vocab.count(a) && vocab.count(b) && vocab.count(nw) && !merges.count({a, b}))
      merges[{a, b}] = {rank, nw};
    rank++;
  }
}
std::vector<Model::Sym> Model::initial(const U& word, bool* dropped) const {
  std::vector<Sym> r;
  int pos = 0, n = word.size();
  bool last_unk = false;
  for (int i = 0; i < n; i++) {
    std::string bytes = utf8(word[i]), t = bytes;
    if (i > 0) t = prefix + t;
    if (i == n - 1) t += suffix;
    int b = pos, e = pos + bytes.size();
    pos = e;
    if (vocab.count(t)) {
      r.push_back({t, b, e});
      last_unk = false;
      continue;
    }
    if (fallback) {
      std::vector<std::string> byte_toks;
      bool all = true;
      for (unsigned char x : t) {
        char buf[8];
        snprintf(buf, sizeof buf, "<0x%02X>", x);
        byte_toks.push_back(buf);
        all = all && vocab.count(buf);
      }
      if (all) {
        for (size_t k = 0; k < byte_toks.size(); k++)
          r.push_back({byte_toks[k], b + (int)k, b + (int)k + 1});
        last_unk = false;
        continue;
      }
    }
    if (unk.empty() || !vocab.count(unk)) {
      *dropped = true;
      continue;
    }
    if (fuse && last_unk)
      r.back().e = e;
    else
      r.push_back({unk, b, e});
    last_unk = true;
  }
  return r;
}
std::vector<Tok> Model::tokenize(const U& word, bool* dropped) const {
  std::vector<Tok> r;
  int n = word.size();
  if (wordpiece) {
    auto unknown = [&] {
      auto it = vocab.find(unk);
      r = {{it == vocab.end() ? 0 : it->second, unk, 0, n}};
      return r;
    };
    if (n > max_chars) return unknown();
    for (int i = 0; i < n;) {
      int j = std::min(n, i + longest);  // no entry has more characters
      std::string t;
      for (; j > i; j--) {
        t = (i > 0 ? prefix : "") + utf8(word.substr(i, j - i));
        if (vocab.count(t)) break;
      }
      if (j == i) return unknown();
      r.push_back({vocab.at(t), t, i, j});
      i = j;
    }
    return r;
  }
  if (ignore && vocab.count(utf8(word))) return {{vocab.at(utf8(word)), utf8(word), 0, n}};
  std::vector<Sym> sy = initial(word, dropped);
  while (true) {
    int best = -1, rank = 0;
    for (int i = 0; i + 1 < (int)sy.size(); i++) {
      auto it = merges.find({sy[i].t, sy[i + 1].t});
      if (it != merges.end() && (best < 0 || it->second.first < rank)) {
        best = i;
        rank = it->second.first;
      }
    }
    if (best < 0) break;
    sy[best].t = merges.at({sy[best].t, sy[best + 1].t}).second;
    sy[best].e = sy[best + 1].e;
    sy.erase(sy.begin() + best + 1);
  }
  std::vector<int> byte_char;  // character holding each byte
  for (int i = 0; i < n; i++) byte_char.insert(byte_char.end(), utf8(word[i]).size(), i);
  for (auto& x : sy)
    r.push_back({vocab.at(x.t), x.t, byte_char[x.b], byte_char[x.e - 1] + 1});
  return r;
}

// -------------------------------------------------------------- added tokens
ATok atok_from(const J& j) {
  ATok t;
  t.id = j["id"].num();
  t.content = j["content"].str();
  t.single_word = j["single_word"].flag();
  t.lstrip = j["lstrip"].flag();
  t.rstrip = j["rstrip"].flag();
  t.normalized = j["normalized"].flag(true);
  t.special = j["special"].flag();
  return t;
}
J to_json(const ATok& t) {
  return J::obj({{"id", t.id}, {"content", t.content}, {"single_word", t.single_word},
                 {"lstrip", t.lstrip}, {"rstrip", t.rstrip}, {"normalized", t.normalized},
                 {"special", t.special}});
}
int Added::add(const std::vector<ATok>& toks, const Model* m) {
  int n = 0;
  for (auto& t : toks) {
    if (t.content.empty()) continue;
    n++;
    if (t.special) special.insert(t.content);
    int id;
    if (ids.count(t.content)) {
      id = ids[t.content];
    } else if (m && m->vocab.count(t.content)) {
      id = m->vocab.at(t.content);
    } else {
      id = m ? m->vocab.size() : 0;
      for (auto& p : ids) id = std::max(id, p.second + 1);
    }
    if (!ids.count(t.content)) order.push_back(t);
    ids[t.content] = id;
    by_id[id] = t;
  }
  return n;
}
struct Hit {
  int id;  // -1 for text
  int b, e;
};
static std::vector<Hit> find(const U& s, const std::map<U, int>& pats,
                             const std::map<int, ATok>& by_id) {
  struct M {
    int b, e, id;
  };
  std::vector<M> ms;
  int n = s.size();
  for (int i = 0; i < n;) {
    int best = 0, id = -1;
    for (auto& p : pats)
      if ((int)p.first.size() > best && s.compare(i, p.first.size(), p.first) == 0) {
        best = p.first.size();
        id = p.second;
      }
    if (best) {
      ms.push_back({i, i + best, id});
      i += best;
    } else {
      i++;
    }
  }
  std::vector<Hit> r;
  int done = 0;
  for (auto& m : ms) {
    if (m.b < done) continue;
    const ATok& t = by_id.at(m.id);
    if (t.single_word && ((m.b > 0 && is_word_char(s[m.b - 1])) || (m.e < n && is_word_char(s[m.e]))))
      continue;
    int b = m.b, e = m.e;
    if (t.lstrip)
      while (b > done && is_ws(s[b - 1])) b--;
    if (t.rstrip)
      while (e < n && is_ws(s[e])) e++;
    if (b > done) r.push_back({-1, done, b});
    r.push_back({m.id, b, e});
    done = e;
  }
  if (done < n) r.push_back({-1, done, n});
  return r;
}
PreText Added::extract(const J& normalizer, const U& text, bool* ambiguous) const {
  std::map<U, int> raw, norm;
  for (auto& t : order) {
    int id = ids.at(t.content);
    U pat = utf8_decode(t.content);
    if (t.normalized) pat = normalize(normalizer, pat);
    auto& table = t.normalized ? norm : raw;
    if (table.count(pat) && ambiguous) *ambiguous = true;
    table[pat] = id;
  }
  PreText p;
  Text orig = original(text);
  for (auto& h : find(text, raw, by_id)) {
    if (h.id >= 0) {
      int b = p.text.size();
      p.text.insert(p.text.end(), orig.begin() + h.b, orig.begin() + h.e);
      int e = p.text.size();
      p.pieces.push_back({b, e, {{h.id, utf8(text.substr(h.b, h.e - h.b)), 0, e - b}}});
      continue;
    }
    Text t = normalize(normalizer, slice(orig, h.b, h.e));
    U tc = chars(t);
    int base = p.text.size();
    p.text.insert(p.text.end(), t.begin(), t.end());
    for (auto& g : find(tc, norm, by_id)) {
      RPiece x{base + g.b, base + g.e, {}};
      if (g.id >= 0) x.toks = {{g.id, utf8(tc.substr(g.b, g.e - g.b)), 0, g.e - g.b}};
      p.pieces.push_back(x);
    }
  }
  return p;
}

// --------------------------------------------------------- encodings onwards
Enc encode_pieces(const PreText& p) {
  Enc e;
  int n = p.text.size();
  for (size_t i = 0; i < p.pieces.size(); i++) {
    const RPiece& x = p.pieces[i];
    for (auto& t : x.toks) {
      e.ids.push_back(t.id);
      e.tokens.push_back(t.value);
      e.type_ids.push_back(0);
      e.words.push_back((int)i);
      int b = x.b + t.s, f = std::min(x.b + t.e, n);
      if (b < f)
        e.offsets.push_back({p.text[b].s, p.text[f - 1].e});
      else
        e.offsets.push_back({0, 0});
      e.special.push_back(0);
      e.attention.push_back(1);
    }
  }
  return e;
}
static Enc window(const Enc& e, int b, int f) {
  Enc r;
  for (int i = b; i < f; i++) {
    r.ids.push_back(e.ids[i]);
    r.type_ids.push_back(e.type_ids[i]);
    r.tokens.push_back(e.tokens[i]);
    r.words.push_back(e.words[i]);
    r.offsets.push_back(e.offsets[i]);
    r.special.push_back(e.special[i]);
    r.attention.push_back(e.attention[i]);
  }
  return r;
}
Enc truncate(const J& spec, const Enc& e, int n_added, bool* rejects) {
  if (spec.null()) return e;
  int max = std::max(0, spec["max_length"].num() - n_added), stride = spec["stride"].num();
  int n = e.ids.size();
  if (n <= max) return e;
  if (max == 0) {
    Enc r;
    r.over.push_back(e);
    return r;
  }
  if (stride < 0 || stride >= max) {
    *rejects = true;
    return e;
  }
  std::vector<std::pair<int, int>> w;
  bool right = spec["direction"].str() == "Right";
  // consecutive windows sharing exactly stride tokens
  if (right) {
    int b = 0;
    while (true) {
      int f = std::min(n, b + max);
      w.push_back({b, f});
      if (f == n) break;
      b = f - stride;
    }
  } else {
    int f = n;
    while (true) {
      int b = std::max(0, f - max);
      w.push_back({b, f});
      if (b == 0) break;
      f = b + stride;
    }
  }
  Enc r = window(e, w[0].first, w[0].second);
  for (size_t i = 1; i < w.size(); i++) r.over.push_back(window(e, w[i].first, w[i].second));
  return r;
}
static Enc pad_to(const J& s, Enc e, int target) {
  for (auto& o : e.over) o = pad_to(s, o, target);
  int k = target - (int)e.ids.size();
  if (k <= 0) return e;
  bool left = s["direction"].str() == "Left";
  auto ins = [&](auto& v, auto x) { v.insert(left ? v.begin() : v.end(), k, x); };
  ins(e.ids, s["pad_id"].num());
  ins(e.type_ids, s["pad_type_id"].num());
  ins(e.tokens, s["pad_token"].str());
  ins(e.words, std::optional<int>(0));
  ins(e.offsets, std::make_pair(0, 0));
  ins(e.special, 1);
  ins(e.attention, 0);
  return e;
}
Enc pad(const J& s, const Enc& e) {
  if (s.null()) return e;
  int target = s["strategy"].kind == J::OBJ ? s["strategy"]["Fixed"].num() : (int)e.ids.size();
  int m = s["pad_to_multiple_of"].num();
  if (m > 0) target = (target + m - 1) / m * m;
  return pad_to(s, e, target);
}
Enc post(const J& s, const Enc& e, bool add_special) {
  if (s.null()) return e;
  const std::string type = s["type"].str();
  if (type == "Sequence") {
    Enc r = e;
    for (auto& k : s["processors"].a) r = post(k, r, add_special);
    return r;
  }
  Enc r;
  if (type == "TemplateProcessing") {
    for (auto& p : s["single"].a) {
      const std::string& kind = p.o[0].first;
      const J& v = p.o[0].second;
      if (kind == "Sequence") {
        Enc q = e;
        for (auto& t : q.type_ids) t = v["type_id"].num();
        q.over.clear();
        auto cat = [](auto& a, auto& b) { a.insert(a.end(), b.begin(), b.end()); };
        cat(r.ids, q.ids);
        cat(r.type_ids, q.type_ids);
        cat(r.tokens, q.tokens);
        cat(r.words, q.words);
        cat(r.offsets, q.offsets);
        cat(r.special, q.special);
        cat(r.attention, q.attention);
      } else if (add_special) {
        for (auto& sp : s["special_tokens"].o) {
          if (sp.second["id"].str() != v["id"].str()) continue;
          for (size_t i = 0; i < sp.second["ids"].a.size(); i++) {
            r.ids.push_back(sp.second["ids"].a[i].num());
            r.tokens.push_back(sp.second["tokens"].a[i].str());
            r.type_ids.push_back(v["type_id"].num());
            r.words.push_back(std::nullopt);
            r.offsets.push_back({0, 0});
            r.special.push_back(1);
            r.attention.push_back(1);
          }
          break;
        }
      }
    }
    for (auto& o : e.over) r.over.push_back(post(s, o, add_special));
    return r;
  }
  if (type == "ByteLevel" && s["trim_offsets"].flag()) {
    r = e;
    const std::string sp = byte_chars()[' '];
    for (size_t i = 0; i < r.tokens.size(); i++) {
      U t = utf8_decode(r.tokens[i]);
      int lead = 0, trail = 0, n = t.size();
      while (lead < n && utf8(t[lead]) == sp) lead++;
      while (trail < n && utf8(t[n - 1 - trail]) == sp) trail++;
      auto& o = r.offsets[i];
      bool first = i == 0 || o.first == 0;
      if (lead == 1 && first && s["add_prefix_space"].flag()) lead = 0;
      o.first = std::min(o.first + lead, o.second);
      o.second = std::max(o.second - trail, o.first);
    }
    for (auto& o : r.over) o = post(s, o, add_special);
    return r;
  }
  return e;
}

// ------------------------------------------------------------------ decoders
static std::string subst(const std::string& s, const std::string& a, const std::string& b) {
  if (a.empty()) return s;
  std::string r;
  for (size_t i = 0; i < s.size();) {
    if (s.compare(i, a.size(), a) == 0) {
      r += b;
      i += a.size();
    } else {
      r += s[i++];
    }
  }
  return r;
}
std::vector<std::string> decode(const J& d, std::vector<std::string> t) {
  const std::string type = d["type"].str();
  std::vector<std::string> r;
  if (type == "Sequence") {
    for (auto& k : d["decoders"].a) t = decode(k, t);
    return t;
  }
  if (type == "WordPiece") {
    const std::string p = d["prefix"].str();
    for (size_t i = 0; i < t.size(); i++) {
      std::string x = t[i];
      if (i > 0) {
        if (x.compare(0, p.size(), p) == 0)
          x = x.substr(p.size());
        else
          x = " " + x;
      }
      if (d["cleanup"].flag()) {
        static const char* rules[][2] = {
            {" .", "."}, {" ?", "?"}, {" !", "!"}, {" ,", ","}, {" ' ", "'"}, {" n't", "n't"},
            {" 'm", "'m"}, {" do not", " don't"}, {" 's", "'s"}, {" 've", "'ve"}, {" 're", "'re"}};
        for (auto& k : rules) x = subst(x, k[0], k[1]);
      }
      r.push_back(x);
    }
    return r;
  }
  if (type == "Replace") {
    for (auto& x : t) r.push_back(subst(x, d["pattern"]["String"].str(), d["content"].str()));
    return r;
  }
  if (type == "Fuse") {
    std::string x;
    for (auto& y : t) x += y;
    return {x};
  }
  if (type == "Strip") {
    const std::string c = d["content"].str();
    for (auto x : t) {
      if (!c.empty()) {
        int a = 0, b = 0;
        while (a < d["start"].num() && x.compare(0, c.size(), c) == 0) {
          x = x.substr(c.size());
          a++;
        }
        while (b < d["stop"].num() && x.size() >= c.size() &&
               x.substr(x.size() - c.size()) == c) {
          x = x.substr(0, x.size() - c.size());
          b++;
        }
      }
      r.push_back(x);
    }
    return r;
  }
  if (type == "ByteFallback") {
    std::string run;
    auto flush = [&] {
      if (run.empty()) return;
      if (utf8_valid(run, nullptr))
        r.push_back(run);
      else
        for (size_t i = 0; i < run.size(); i++) r.push_back("\xef\xbf\xbd");
      run.clear();
    };
    auto hex = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; };
    for (auto& x : t) {
      if (x.size() == 6 && x.substr(0, 3) == "<0x" && x[5] == '>' && hex(x[3]) >= 0 && hex(x[4]) >= 0) {
        run += static_cast<char>(hex(x[3]) * 16 + hex(x[4]));
      } else {
        flush();
        r.push_back(x);
      }
    }
    flush();
    return r;
  }
  if (type == "ByteLevel") {
    static std::map<std::string, int> back;
    if (back.empty())
      for (int b = 0; b < 256; b++) back[byte_chars()[b]] = b;
    std::string all;
    for (auto& x : t) {
      std::string bytes;
      bool ok = true;
      for (char32_t c : utf8_decode(x)) {
        auto it = back.find(utf8(c));
        if (it == back.end()) {
          ok = false;
          break;
        }
        bytes += static_cast<char>(it->second);
      }
      all += ok ? bytes : x;
    }
    return {all};
  }
  return t;
}

// ----------------------------------------------------------------- tokenizer
Tokenizer::Tokenizer(const J& c) : config(c) {
  if (!c["model"].null()) model.emplace(c["model"]);
  if (!c["added_tokens"].null()) {
    std::vector<ATok> t;
    for (auto& j : c["added_tokens"].a) t.push_back(atok_from(j));
    add_tokens(t);
  }
}
int Tokenizer::add_tokens(const std::vector<ATok>& t) {
  has_added = true;
  return added.add(t, model ? &*model : nullptr);
}
PreText Tokenizer::pre(const U& text, Flags* f) const {
  PreText p = has_added ? added.extract(config["normalizer"], text, &f->ambiguous)
                        : whole(normalize(config["normalizer"], original(text)));
  p = pre_tokenize(config["pre_tokenizer"], p);
  f->ambiguous |= p.ambiguous;
  return p;
}
PreText Tokenizer::modelled(const U& text, Flags* f) const {
  PreText p = pre(text, f);
  if (model)
    for (auto& x : p.pieces)
      if (x.toks.empty()) x.toks = model->tokenize(chars(slice(p.text, x.b, x.e)), &f->dropped);
  return p;
}
Enc Tokenizer::encode(const U& text, bool add_special, Flags* f) const {
  Enc e = encode_pieces(modelled(text, f));
  int n_added = post(config["post_processor"], Enc(), add_special).ids.size();
  e = truncate(config["truncation"], e, n_added, &f->rejects);
  e = post(config["post_processor"], e, add_special);
  return pad(config["padding"], e);
}
std::string Tokenizer::decode(const std::vector<int>& ids, bool skip) const {
  std::vector<std::string> t;
  for (int id : ids) {
    auto a = added.by_id.find(id);
    if (a != added.by_id.end()) {
      if (!(skip && added.special.count(a->second.content))) t.push_back(a->second.content);
    } else if (model && model->rev.count(id)) {
      const std::string& v = model->rev.at(id);
      if (!(skip && added.special.count(v))) t.push_back(v);
    }
  }
  std::string r;
  if (config["decoder"].null()) {
    for (size_t i = 0; i < t.size(); i++) r += (i ? " " : "") + t[i];
    return r;
  }
  for (auto& x : ref::decode(config["decoder"], t)) r += x;
  return r;
}
}  // namespace ref
