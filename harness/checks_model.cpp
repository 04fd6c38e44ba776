// C03, C04: the models against naive definitions.
#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include <tuple>

#include "gen.h"

// Pieces of one text: words to tokenize, some already holding a token.
static std::vector<Piece> make_pieces(Case& c, const std::vector<U>& words) {
  std::vector<Piece> r;
  int at = 0;
  for (auto& w : words) {
    Piece p;
    p.text = utf8(w);
    p.s = at;
    p.e = at + w.size();
    at = p.e;
    if (c.s.chance(1, 12)) p.toks.push_back({c.s.range(0, 5000), utf8(w), 0, (int)w.size()});
    r.push_back(p);
  }
  return r;
}
static std::string show_words(const std::vector<Piece>& ps) {
  std::string r;
  for (auto& p : ps) r += (r.empty() ? "" : " ") + show(utf8_decode(p.text)) + (p.toks.empty() ? "" : "(token)");
  return r;
}
static U perturb(Src& s, U w, const std::vector<U>& words) {
  for (int k = s.weighted({9, 4, 1}); k > 0; k--) {
    size_t at = s.draw(w.size() + 1);
    switch (s.draw(5)) {
      case 0: w.insert(at, 1, gen_char(s)); break;
      case 1: if (!w.empty()) w.erase(s.draw(w.size()), 1); break;
      case 2: if (!words.empty()) w.insert(at, s.pick(words)); break;
      case 3: w += w; break;
      default: w.insert(at, 1, U"xQ?é😀"[s.draw(5)]);
    }
  }
  return w;
}
static U make_word(Src& s, const std::vector<U>& words, int long_max) {
  U w;
  int n = s.weighted({8, 3, 1}) == 2 ? s.range(1, long_max) : s.range(1, 4);
  for (int i = 0; i < n; i++) w += words.empty() ? gen_word(s, 3) : s.pick(words);
  w = perturb(s, w, words);
  if (w.size() > 2000) w.resize(2000);
  return w;
}

PROPERTY(C03, 60000,
         "a vocabulary of up to 60 pieces over a small alphabet (ASCII, accented, CJK, any), "
         "continuation prefixes of 0-3 characters, max_input_chars_per_word 0-12 or 100, with "
         "words composed of and perturbed from it in one text of up to 8 pieces; compared with "
         "greedy longest match over characters. Non-trivial: some word has two or more tokens, "
         "or is unknown though its first piece matches")
CHECK_CASE(C03, greedy, 1) {
  Vocab v;
  J spec = gen_wordpiece(c.s, v);
  ref::Model m(spec);
  std::vector<U> words;
  int n = c.s.range(1, 8);
  for (int i = 0; i < n; i++) {
    U w = make_word(c.s, v.words, 30);
    if (c.s.chance(1, 6)) w.resize(std::min<size_t>(w.size(), m.max_chars + c.s.draw(2)));
    if (c.s.chance(1, 12) && w.size()) {  // exactly around the limit
      while ((int)w.size() < m.max_chars + 1) w += w;
      w.resize(m.max_chars + c.s.draw(2));
    }
    if (w.empty()) w = U"a";
    words.push_back(w);
  }
  auto ps = make_pieces(c, words);
  c.describe(dump(spec) + " on " + show_words(ps));
  sut::Model k(dump(spec));
  U all;
  for (auto& w : words) all += w;
  sut::PTS pts(all);
  pts.set_pieces(ps);
  auto got = k.tokenize(pts).pieces();
  c.check(got.size() == ps.size(), "pieces changed: " + show(got));
  for (size_t i = 0; i < ps.size(); i++) {
    Piece want = ps[i];
    bool dropped = false;
    if (want.toks.empty()) want.toks = m.tokenize(words[i], &dropped);
    bool unknown = want.toks.size() == 1 && want.toks[0].value == m.unk && utf8(words[i]) != m.unk;
    if (want.toks.size() > 1 || (unknown && m.vocab.count(utf8(words[i].substr(0, 1))))) c.nontrivial = true;
    c.label(!ps[i].toks.empty() ? "word: token" : unknown ? (int)words[i].size() > m.max_chars ? "word: too long" : "word: unknown" : want.toks.size() > 1 ? "word: split" : "word: whole");
    // which id an unknown token has that the vocabulary lacks is left open
    Piece g = got[i];
    if (unknown && !m.vocab.count(m.unk) && g.toks.size() == 1) g.toks[0].id = want.toks[0].id;
    c.check(g == want, "word " + show(words[i]) + ": expected " + show({want}) + " but got " + show({g}));
  }
  for (int i = c.s.range(0, 3); i > 0 && !v.tokens.empty(); i--) {
    int id = c.s.draw(v.tokens.size());
    c.check(k.token_to_id(v.tokens[id]) == std::optional<int>(id), "id of " + quote(v.tokens[id]));
    c.check(k.id_to_token(id) == std::optional<std::string>(v.tokens[id]), "token of " + std::to_string(id));
  }
}

PROPERTY(C04, 60000,
         "a vocabulary and up to 40 merges grown from each other (several pairs may give the "
         "same piece; order shuffled), with or without affixes, byte fallback (complete or one "
         "byte missing), fuse_unk, ignore_merges, byte alphabet; words composed of and "
         "perturbed from its pieces, up to hundreds of characters, the same words again later; "
         "compared with merging the lowest-ranked leftmost pair until none is left. "
         "Non-trivial: at least two merges apply in some word")
static void bpe_case(Case& c, const BpeOpts& o, int long_max) {
  Vocab v;
  J spec = gen_bpe(c.s, v, o);
  ref::Model m(spec);
  sut::Model k(dump(spec));
  std::vector<U> used;
  std::string desc = dump(spec) + " on";
  int rounds = c.s.range(1, 3);
  for (int r = 0; r < rounds; r++) {
    std::vector<U> words;
    int n = c.s.range(1, 6);
    for (int i = 0; i < n; i++) {
      U w = !used.empty() && c.s.chance(1, 4) ? c.s.pick(used) : make_word(c.s, v.words, long_max);
      if (w.empty()) w = U"a";
      words.push_back(w);
      used.push_back(w);
    }
    auto ps = make_pieces(c, words);
    desc += " | " + show_words(ps);
    c.describe(desc);
    U all;
    for (auto& w : words) all += w;
    sut::PTS pts(all);
    pts.set_pieces(ps);
    auto got = k.tokenize(pts).pieces();
    c.check(got.size() == ps.size(), "pieces changed: " + show(got));
    for (size_t i = 0; i < ps.size(); i++) {
      Piece want = ps[i], g = got[i];
      bool dropped = false;
      if (want.toks.empty()) {
        want.toks = m.tokenize(words[i], &dropped);
        bool d2 = false;
        size_t before = m.initial(words[i], &d2).size();
        bool ign = m.ignore && m.vocab.count(utf8(words[i]));
        if (!ign && before >= want.toks.size() + 2) c.nontrivial = true;
        c.label(ign ? "word: ignore_merges" : before == want.toks.size() ? "word: no merge" : "word: merged");
        if (dropped) c.label("word: characters dropped");
        if (m.fallback)
          for (auto& t : want.toks)
            if (t.value.compare(0, 3, "<0x") == 0) {
              c.label("word: byte tokens");
              break;
            }
      }
      if (dropped)  // offsets are only claimed when every character is represented
        for (size_t j = 0; j < std::min(g.toks.size(), want.toks.size()); j++) {
          g.toks[j].s = want.toks[j].s;
          g.toks[j].e = want.toks[j].e;
        }
      c.check(g == want, "word " + show(words[i]) + ": expected " + show({want}) + " but got " + show({g}));
    }
  }
}
CHECK_CASE(C04, chars, 5) { bpe_case(c, BpeOpts(), 25); }
CHECK_CASE(C04, long_words, 1) {
  BpeOpts o;
  o.complete = true;
  bpe_case(c, o, 120);
}
CHECK_CASE(C04, bytes, 2) {
  BpeOpts o;
  o.byte_level = true;
  bpe_case(c, o, 25);
}
// few letters, merges of every shape: ranks compete everywhere
CHECK_CASE(C04, dense, 4) {
  int letters = c.s.range(1, 3);
  std::vector<std::string> toks;
  for (int i = 0; i < letters; i++) toks.push_back(std::string(1, 'a' + i));
  std::set<std::string> seen(toks.begin(), toks.end()), seen_m;
  J merges = J::arr();
  int n = c.s.range(1, 14);
  for (int i = 0; i < n; i++) {
    std::string a = c.s.pick(toks), b = c.s.pick(toks);
    if (a.size() + b.size() > 8 || !seen_m.insert(a + " " + b).second) continue;
    merges.a.push_back(J(a + " " + b));
    if (seen.insert(a + b).second) toks.push_back(a + b);
  }
  c.s.shuffle(merges.a);
  Vocab v;
  v.tokens = toks;
  J spec = J::obj({{"type", "BPE"}, {"dropout", J()}, {"unk_token", J()},
                   {"continuing_subword_prefix", J()}, {"end_of_word_suffix", J()},
                   {"fuse_unk", false}, {"byte_fallback", false}, {"ignore_merges", false},
                   {"vocab", v.json()}, {"merges", merges}});
  ref::Model m(spec);
  sut::Model k(dump(spec));
  U w;
  for (int len = c.s.range(1, c.s.chance(1, 8) ? 200 : 14); len > 0; len--) w += U'a' + c.s.draw(letters);
  c.describe(dump(spec) + " on " + show(w));
  bool dropped = false;
  auto want = m.tokenize(w, &dropped);
  auto got = k.tokenize(sut::PTS(w)).pieces();
  c.nontrivial = want.size() + 2 <= w.size();
  c.check(got.size() == 1 && got[0].toks == want,
          "expected " + show({Piece{utf8(w), 0, (int)w.size(), want}}) + " but got " + show(got));
}
// with dropout some merges are skipped; what is left must still be made of
// listed merges and tile the word
CHECK_CASE(C04, dropout, 1) {
  BpeOpts o;
  o.dropout = true;
  o.complete = true;
  o.affixes = false;
  Vocab v;
  J spec = gen_bpe(c.s, v, o);
  spec.set("ignore_merges", false);
  ref::Model m(spec);
  sut::Model k(dump(spec));
  U w = make_word(c.s, v.words, 12);
  if (w.empty()) w = U"a";
  c.describe(dump(spec) + " on " + show(w));
  bool dropped = false;
  auto init = m.initial(w, &dropped);
  if (dropped) c.exclude("characters without a token");
  auto got = k.tokenize(sut::PTS(w)).pieces();
  c.check(got.size() == 1, "pieces changed");
  auto& toks = got[0].toks;
  size_t at = 0;
  for (auto& t : toks) {
    c.check(m.vocab.count(t.value) && m.vocab.at(t.value) == t.id, "token without its id " + quote(t.value));
    // initial symbols covered: grow until the strings match; then check derivability
    std::string acc;
    size_t to = at;
    while (to < init.size() && acc.size() < t.value.size()) acc += init[to++].t;
    c.check(acc == t.value, "tokens do not follow the word: " + show(got));
    size_t n = to - at;
    std::vector<std::vector<bool>> made(n + 1, std::vector<bool>(n + 1, false));
    auto str = [&](size_t i, size_t j) {
      std::string r;
      for (size_t x = i; x < j; x++) r += init[at + x].t;
      return r;
    };
    for (size_t i = 0; i < n; i++) made[i][i + 1] = true;
    for (size_t len = 2; len <= n; len++)
      for (size_t i = 0; i + len <= n; i++)
        for (size_t j = i + 1; j < i + len && !made[i][i + len]; j++)
          made[i][i + len] = made[i][j] && made[j][i + len] && m.merges.count({str(i, j), str(j, i + len)});
    c.check(made[0][n], "token " + quote(t.value) + " is not made by listed merges");
    if (n > 1) c.nontrivial = true;
    at = to;
  }
  c.check(at == init.size(), "the word is not covered: " + show(got));
  int pos = 0;
  for (auto& t : toks) {
    c.check(t.s <= pos && t.e >= t.s && t.e >= pos, "offsets do not tile: " + show(got));
    pos = t.e;
  }
  c.check(pos == (int)w.size(), "offsets do not cover the word: " + show(got));
}
// How often each segmentation comes out: in every round the candidates are
// gone through in order, each is passed over with probability p, the first one
// that is not is applied (and those passed over get another chance), and the
// word is done when all are passed over. With `stale`, candidates whose symbols
// have been merged otherwise meanwhile still take part, without effect.
namespace {
struct Chances {
  const ref::Model& m;
  double p;
  bool stale;
  std::map<std::vector<std::string>, double> result;
  struct Entry {
    int rank, pos;
    std::string made;
    bool operator<(const Entry& o) const { return std::tie(rank, pos, made) < std::tie(o.rank, o.pos, o.made); }
  };
  typedef std::vector<std::string> Word;  // by position; empty where merged away
  static int next(const Word& w, int i) {
    for (i++; i < (int)w.size() && w[i].empty();) i++;
    return i;
  }
  bool candidate(const Word& w, int i, Entry* e) const {
    if (i < 0 || i >= (int)w.size() || w[i].empty()) return false;
    int j = next(w, i);
    if (j >= (int)w.size()) return false;
    auto it = m.merges.find({w[i], w[j]});
    if (it == m.merges.end()) return false;
    *e = {it->second.first, i, w[i] + w[j]};
    return true;
  }
  void all(const Word& w, std::multiset<Entry>& q) const {
    Entry e;
    for (int i = 0; i < (int)w.size(); i++)
      if (candidate(w, i, &e)) q.insert(e);
  }
  void round(const Word& w, const std::multiset<Entry>& q, double chance) {
    double passed = 1;
    for (auto it = q.begin(); it != q.end(); ++it) {
      std::multiset<Entry> rest = q;
      rest.erase(rest.find(*it));
      Word to = w;
      Entry e;
      if (candidate(w, it->pos, &e) && e.made == it->made) {
        to[next(w, it->pos)].clear();
        to[it->pos] = it->made;
        if (stale) {
          int before = it->pos - 1;
          while (before >= 0 && to[before].empty()) before--;
          if (candidate(to, before, &e)) rest.insert(e);
          if (candidate(to, it->pos, &e)) rest.insert(e);
        }
      }
      if (!stale) {
        rest.clear();
        all(to, rest);
      }
      round(to, rest, chance * passed * (1 - p));
      passed *= p;
    }
    Word done;
    for (auto& x : w)
      if (!x.empty()) done.push_back(x);
    result[done] += chance * passed;
  }
};
}  // namespace
CHECK_RARE(C04, dropout_chances, 400) {
  BpeOpts o;
  o.complete = true;
  o.affixes = false;
  Vocab v;
  J spec = gen_bpe(c.s, v, o);
  spec.set("ignore_merges", false);
  static const std::vector<double> ps = {0.5, 0.1, 0.25, 0.75, 0.9, 0.02};
  double p = c.s.pick(ps);
  spec.set("dropout", J(p));
  ref::Model m(spec);
  std::vector<U> shorts;
  for (auto& x : v.words)
    if (x.size() >= 2 && x.size() <= 4) shorts.push_back(x);
  U w = !shorts.empty() && c.s.chance(3, 4) ? c.s.pick(shorts) : make_word(c.s, v.words, 4);
  bool anew = c.s.coin();
  c.describe(dump(spec) + " on " + show(w) + (anew ? " with a new model for each call" : ""));
  bool dropped = false;
  std::vector<std::string> start;
  for (auto& x : m.initial(w, &dropped)) start.push_back(x.t);
  if (dropped || start.size() < 2 || start.size() > 4) c.exclude("too long or short");
  Chances with{m, p, true}, without{m, p, false};
  std::multiset<Chances::Entry> q;
  with.all(start, q);
  if (q.empty()) c.exclude("no merges");
  with.round(start, q, 1);
  without.round(start, q, 1);
  for (auto& x : with.result)
    if (std::abs(x.second - without.result[x.first]) > 1e-9) c.exclude("the rules leave it open");
  const int calls = 40, words = 50;
  std::unique_ptr<sut::Model> k;
  std::map<std::vector<std::string>, int> seen;
  for (int i = 0; i < calls; i++) {
    if (!k || anew) k = std::make_unique<sut::Model>(dump(spec));
    U text;
    std::vector<Piece> ps;
    for (int j = 0; j < words; j++) {
      Piece x;
      x.text = utf8(w);
      x.s = text.size();
      text += w;
      x.e = text.size();
      ps.push_back(x);
    }
    sut::PTS in(text);
    in.set_pieces(ps);
    for (auto& x : k->tokenize(in).pieces()) {
      std::vector<std::string> got;
      for (auto& t : x.toks) got.push_back(t.value);
      seen[got]++;
    }
  }
  c.nontrivial = with.result.size() > 1;
  c.label("segmentations: " + std::to_string(with.result.size()));
  double n = calls * words;
  for (auto& x : with.result) seen[x.first];
  for (auto& x : seen) {
    double want = n * with.result[x.first], room = 7 * std::sqrt(want * (1 - want / n)) + 6;
    c.check(std::abs(x.second - want) <= room, "the tokens " + show(x.first) + " came out " + std::to_string(x.second) + " times of " + std::to_string((int)n) +
                                                   ", but should about " + std::to_string((int)(want + 0.5)) + " times");
  }
}

// ------------------------------------------------ long words, many entries
// ids that are far apart, or beyond 16 bits
static void spread_ids(Src& s, J& vocab) {
  int mode = s.draw(3), n = vocab.o.size();
  if (mode == 0) return;
  for (int i = 0; i < n; i++) {
    int id = vocab.o[i].second.num();
    vocab.o[i].second = J(mode == 1 ? id + 65530 : i % 3 == 0 ? 2147483647 - id : id * 7);
  }
}
static void compare_words(Case& c, const ref::Model& m, const sut::Model& k, const std::vector<U>& words, int wordpiece_limit) {
  U all;
  std::vector<Piece> ps;
  for (auto& w : words) {
    Piece p;
    p.text = utf8(w);
    p.s = all.size();
    p.e = p.s + w.size();
    ps.push_back(p);
    all += w;
  }
  sut::PTS pts(all);
  pts.set_pieces(ps);
  auto got = k.tokenize(pts).pieces();
  c.check(got.size() == ps.size(), "pieces changed");
  for (size_t i = 0; i < ps.size(); i++) {
    Piece want = ps[i], g = got[i];
    bool dropped = false;
    want.toks = m.tokenize(words[i], &dropped);
    if (want.toks.size() > 1 || (int)words[i].size() > wordpiece_limit) c.nontrivial = true;
    if (wordpiece_limit >= 0 && want.toks.size() == 1 && !m.vocab.count(m.unk) && want.toks[0].value == m.unk && g.toks.size() == 1) g.toks[0].id = want.toks[0].id;
    if (dropped)
      for (size_t j = 0; j < std::min(g.toks.size(), want.toks.size()); j++) {
        g.toks[j].s = want.toks[j].s;
        g.toks[j].e = want.toks[j].e;
      }
    if (g == want) continue;
    size_t j = 0;
    while (j < g.toks.size() && j < want.toks.size() && g.toks[j] == want.toks[j]) j++;
    auto at = [&](const Piece& p) {
      return j < p.toks.size() ? show({Piece{"", 0, 0, {p.toks[j]}}}) : std::string("no more");
    };
    c.fail("word " + show(words[i].substr(0, 60)) + " of " + std::to_string(words[i].size()) + " characters: " + std::to_string(want.toks.size()) +
           " tokens expected, " + std::to_string(g.toks.size()) + " given; first different is " + std::to_string(j) + ": expected " + at(want) + " but got " + at(g));
  }
}
CHECK_RARE(C03, large, 60) {
  Vocab v;
  J spec = gen_wordpiece(c.s, v);
  std::string prefix = spec["continuing_subword_prefix"].str();
  J vocab = spec["vocab"];
  std::set<std::string> have(v.tokens.begin(), v.tokens.end());
  auto add = [&](const std::string& t) {
    if (have.insert(t).second) vocab.o.push_back({t, J((int)vocab.o.size())});
  };
  std::vector<U> words;
  U unit = c.s.pick(v.words);
  if (unit.empty()) unit = U"ab";
  // long entries, at the start and inside of words
  for (int n = c.s.range(0, 6); n > 0; n--) {
    U t;
    int len = c.s.coin() ? c.s.range(10, 70) : big_size(c.s, 1100);
    while ((int)t.size() < len) t += unit;
    t.resize(len);
    if (c.s.coin()) t[c.s.draw(len)] = U'q';
    add((c.s.coin() ? prefix : "") + utf8(t));
    words.push_back(t);
  }
  bool many = c.s.chance(1, 3);
  int fill = many ? c.s.coin() ? 70000 : c.s.range(300, 70000) : 0;
  for (int i = 0; i < fill; i++) add((i % 3 == 1 ? prefix : "") + utf8(filler(i)));
  spread_ids(c.s, vocab);
  spec.set("vocab", vocab);
  int max = c.s.coin() ? 100000 : c.s.coin() ? big_size(c.s, 2100) : c.s.range(100, 300);
  spec.set("max_input_chars_per_word", max);
  // matching takes cubic time in the length of a word
  for (int n = c.s.range(1, 3); n > 0; n--) {
    U w;
    int len = c.s.chance(3, 4) ? c.s.range(60, 200) : big_size(c.s, 270);
    if (c.s.chance(1, 16)) len = 540;
    if (c.s.chance(1, 4)) len = max + c.s.range(0, 2);
    if (len > 600 && len <= max) len = 300;
    while ((int)w.size() < len) w += !words.empty() && c.s.coin() ? c.s.pick(words) : c.s.pick(v.words) + unit;
    w.resize(len);
    words.push_back(w);
  }
  if (many)
    for (int n = c.s.range(1, 20); n > 0; n--) words.push_back(filler(c.s.draw(fill)) + (c.s.coin() ? filler(c.s.draw(fill)) : U()));
  for (auto& w : words)
    if (w.size() > 560 && (int)w.size() <= max && !have.count(utf8(w))) w.resize(300);
  words.erase(std::remove(words.begin(), words.end(), U()), words.end());
  std::string json = dump(spec);
  c.describe(json.size() < 6000 ? json + " on " + show(words.back()) : std::to_string(fill) + " filler entries in " + json.substr(0, 3000) + " on " + show(words.back()));
  ref::Model m(spec);
  sut::Model k(json);
  compare_words(c, m, k, words, max);
  for (int i = 0; i < 40; i++) {
    auto& e = vocab.o[i < 3 ? vocab.o.size() - 1 - i % vocab.o.size() : c.s.draw(vocab.o.size())];
    c.check(k.token_to_id(e.first) == std::optional<int>(e.second.num()), "id of " + quote(e.first));
    c.check(k.id_to_token(e.second.num()) == std::optional<std::string>(e.first), "token of " + std::to_string(e.second.num()));
    if (vocab.o.size() < 4) break;
  }
}
// words of hundreds to thousands of symbols
CHECK_RARE(C04, long_words_2, 200) {
  Vocab v;
  BpeOpts o;
  o.complete = true;
  J spec = gen_bpe(c.s, v, o);
  J vocab = spec["vocab"];
  spread_ids(c.s, vocab);
  spec.set("vocab", vocab);
  U w;
  int n = big_size(c.s, 1100);
  if (c.s.chance(1, 8)) n = 2100;
  Lcg next(c.s.draw(1 << 16));
  std::vector<U> parts;
  for (auto& x : v.words)
    if (!x.empty()) parts.push_back(x);
  if (parts.empty()) parts.push_back(U"ab");
  bool one = c.s.chance(1, 4);
  while ((int)w.size() < n) w += one ? parts[0] : parts[next(parts.size())];
  w.resize(n);
  c.describe(dump(spec) + " on " + show(w));
  ref::Model m(spec);
  sut::Model k(dump(spec));
  std::vector<U> words = {w};
  if (c.s.coin()) words.push_back(w.substr(0, w.size() / 2));
  compare_words(c, m, k, words, -1);
}
// more than 2^16 entries and merges; the order of the merges decides
CHECK_RARE(C04, many_merges, 24) {
  int chars = c.s.coin() ? 270 : c.s.range(20, 270), skip = c.s.range(1, 3);
  J vocab = J::obj(), merges = J::arr();
  auto add = [&](const std::string& t) { vocab.o.push_back({t, J((int)vocab.o.size())}); };
  for (int i = 0; i < chars; i++) add(utf8(char32_t(0x4e00 + i)));
  std::vector<std::pair<int, int>> pairs;
  for (int i = 0; i < chars; i++)
    for (int j = 0; j < chars; j++)
      if ((i * 7 + j) % skip == 0) pairs.push_back({i, j});
  Lcg next(c.s.draw(1 << 16));
  if (c.s.coin())
    for (size_t i = pairs.size(); i > 1; i--) std::swap(pairs[i - 1], pairs[next(i)]);
  for (auto& p : pairs) {
    std::string a = utf8(char32_t(0x4e00 + p.first)), b = utf8(char32_t(0x4e00 + p.second));
    add(a + b);
    merges.a.push_back(J(a + " " + b));
  }
  spread_ids(c.s, vocab);
  bool ignore = c.s.chance(1, 4);
  J spec = J::obj({{"type", "BPE"}, {"dropout", J()}, {"unk_token", J()}, {"continuing_subword_prefix", J()},
                   {"end_of_word_suffix", J()}, {"fuse_unk", false}, {"byte_fallback", false}, {"ignore_merges", ignore},
                   {"vocab", vocab}, {"merges", merges}});
  std::vector<U> words;
  for (int i = 0; i < 60; i++) {
    U w;
    for (int n = 2 + next(i % 3 ? 6 : 60); n > 0; n--) w += 0x4e00 + next(chars);
    words.push_back(w);
  }
  c.describe(std::to_string(chars) + " characters, " + std::to_string(pairs.size()) + " merges beginning " + dump(J::arr({merges.a[0], merges.a[1], merges.a[2]})) +
             (ignore ? ", ignore_merges," : "") + " on " + show(words[0]) + " ...");
  ref::Model m(spec);
  sut::Model k(dump(spec));
  compare_words(c, m, k, words, -1);
  for (int i = 0; i < 20; i++) {
    auto& e = vocab.o[i < 3 ? vocab.o.size() - 1 - i : next(vocab.o.size())];
    c.check(k.token_to_id(e.first) == std::optional<int>(e.second.num()), "id of " + quote(e.first));
    c.check(k.id_to_token(e.second.num()) == std::optional<std::string>(e.first), "token of " + std::to_string(e.second.num()));
  }
}
// tokens longer than narrow integers count, in words of known segmentation
static const std::vector<char32_t>& units() {
  static const std::vector<char32_t> u = {U'a', U'é', U'世', U'😀'};
  return u;
}
CHECK_RARE(C03, long_tokens, 10) {
  char32_t x = c.s.pick(units());
  int n = c.s.pick(std::vector<int>{32767, 32768, 40000, 65535, 65536, 70000}) + c.s.range(0, 1), rest = c.s.range(0, 4);
  bool over = c.s.chance(1, 4);
  J vocab = J::obj();
  vocab.o.push_back({"[UNK]", J(0)});
  vocab.o.push_back({utf8(U(n, x)), J(1)});
  vocab.o.push_back({"##" + utf8(U(1, x)), J(2)});
  J spec = J::obj({{"type", "WordPiece"}, {"unk_token", "[UNK]"}, {"continuing_subword_prefix", "##"},
                   {"max_input_chars_per_word", over ? n + rest - 1 : n + rest + c.s.range(0, 2)}, {"vocab", vocab}});
  c.describe("a token of " + std::to_string(n) + " " + show(U(1, x)) + " and " + std::to_string(rest) + " more" + (over ? ", above the limit" : ""));
  std::vector<Tok> want;
  if (over) {
    want.push_back({0, "[UNK]", 0, n + rest});
  } else {
    want.push_back({1, utf8(U(n, x)), 0, n});
    for (int i = 0; i < rest; i++) want.push_back({2, "##" + utf8(U(1, x)), n + i, n + i + 1});
  }
  sut::Model k(dump(spec));
  auto got = k.tokenize(sut::PTS(U(n + rest, x))).pieces();
  c.nontrivial = true;
  c.check(got.size() == 1 && got[0].toks == want, "not the tokens expected");
}
CHECK_RARE(C04, long_tokens, 16) {
  char32_t x = c.s.pick(units());
  std::string one = utf8(U(1, x));
  int levels = c.s.range(13, 17);
  J vocab = J::obj(), merges = J::arr();
  for (int l = 0; l <= levels; l++) vocab.o.push_back({utf8(U(1 << l, x)), J(l)});
  for (int l = 0; l < levels; l++) merges.a.push_back(J(utf8(U(1 << l, x)) + " " + utf8(U(1 << l, x))));
  int n = c.s.range(1, 3) * (1 << 15) + c.s.range(0, 40) - 20;
  if (c.s.chance(1, 4)) n = 65536;
  U w(n, x);
  J spec = J::obj({{"type", "BPE"}, {"dropout", J()}, {"unk_token", J()}, {"continuing_subword_prefix", J()},
                   {"end_of_word_suffix", J()}, {"fuse_unk", false}, {"byte_fallback", false}, {"ignore_merges", c.s.coin()},
                   {"vocab", vocab}, {"merges", merges}});
  c.describe(std::to_string(n) + " " + show(U(1, x)) + ", merged pairwise up to " + std::to_string(1 << levels));
  // equal neighbours merge from the left: the largest tokens first, then the binary rest
  std::vector<Tok> want;
  for (int at = 0, l = levels; at < n;) {
    if (n - at >= 1 << l) {
      want.push_back({l, utf8(U(1 << l, x)), at, at + (1 << l)});
      at += 1 << l;
    } else {
      l--;
    }
  }
  sut::Model k(dump(spec));
  auto got = k.tokenize(sut::PTS(w)).pieces();
  c.nontrivial = true;
  c.check(got.size() == 1 && got[0].toks == want, "not the " + std::to_string(want.size()) + " tokens expected");
}
