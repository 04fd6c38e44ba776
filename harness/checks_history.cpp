// C05: histories over several tokenizers, each result compared with that of a
// fresh tokenizer in a process that never did anything else.
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>

#include "gen.h"

// ------------------------------------------------ the process without history
static int to_zygote = -1, from_zygote = -1;
static pid_t zygote_owner = 0;

static bool read_all(int fd, void* p, size_t n) {
  char* c = static_cast<char*>(p);
  while (n > 0) {
    ssize_t k = read(fd, c, n);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) return false;
    c += k;
    n -= k;
  }
  return true;
}
static bool write_all(int fd, const void* p, size_t n) {
  const char* c = static_cast<const char*>(p);
  while (n > 0) {
    ssize_t k = write(fd, c, n);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) return false;
    c += k;
    n -= k;
  }
  return true;
}
static bool send_str(int fd, const std::string& s) {
  uint32_t n = s.size();
  return write_all(fd, &n, sizeof n) && write_all(fd, s.data(), n);
}
static bool recv_str(int fd, std::string& s) {
  uint32_t n;
  if (!read_all(fd, &n, sizeof n)) return false;
  s.resize(n);
  return read_all(fd, &s[0], n);
}
struct Packer {
  std::string out;
  void num(long long v) { out += std::to_string(v) + " "; }
  void str(const std::string& s) {
    num(s.size());
    out += s;
  }
};
struct Unpacker {
  const std::string& in;
  size_t at = 0;
  long long num() {
    size_t e = in.find(' ', at);
    long long v = atoll(in.c_str() + at);
    at = e + 1;
    return v;
  }
  std::string str() {
    size_t n = num();
    std::string r = in.substr(at, n);
    at += n;
    return r;
  }
};
struct Op {
  enum Kind { ENCODE, DECODE, ADD } kind = ENCODE;
  U text;
  std::vector<int> ids;
  bool flag = true;
  std::vector<ATok> toks;
};
static void pack(Packer& p, const Op& o) {
  p.num(o.kind);
  p.str(utf8(o.text));
  p.num(o.ids.size());
  for (int i : o.ids) p.num(i);
  p.num(o.flag);
  p.num(o.toks.size());
  for (auto& t : o.toks) {
    p.num(t.id);
    p.str(t.content);
    for (bool b : {t.single_word, t.lstrip, t.rstrip, t.normalized, t.special}) p.num(b);
  }
}
static Op unpack(Unpacker& u) {
  Op o;
  o.kind = static_cast<Op::Kind>(u.num());
  o.text = utf8_decode(u.str());
  for (long long n = u.num(); n > 0; n--) o.ids.push_back(u.num());
  o.flag = u.num();
  for (long long n = u.num(); n > 0; n--) {
    ATok t;
    t.id = u.num();
    t.content = u.str();
    t.single_word = u.num();
    t.lstrip = u.num();
    t.rstrip = u.num();
    t.normalized = u.num();
    t.special = u.num();
    o.toks.push_back(t);
  }
  return o;
}
static std::string perform(sut::Tokenizer& k, const Op& o, Enc* enc = nullptr) {
  try {
    if (o.kind == Op::ENCODE) {
      Enc e = k.encode(o.text, o.flag);
      if (enc) *enc = e;
      return show(e);
    }
    if (o.kind == Op::DECODE) return quote(k.decode(o.ids, o.flag));
    return std::to_string(o.flag ? k.add_special_tokens(o.toks) : k.add_tokens(o.toks));
  } catch (const std::exception& e) {
    return std::string("exception: ") + e.what();
  }
}
static void zygote_loop(int in, int out) {
  std::string req;
  signal(SIGPROF, SIG_IGN);
  while (recv_str(in, req)) {
    pid_t pid = fork();
    if (pid == 0) {
      struct rlimit rl = {30, 30};
      setrlimit(RLIMIT_CPU, &rl);
      Unpacker u{req};
      std::string config = u.str();
      std::vector<Op> adds;
      for (long long n = u.num(); n > 0; n--) adds.push_back(unpack(u));
      Op op = unpack(u);
      sut::Tokenizer k(config);
      for (auto& a : adds) perform(k, a);
      std::string r = perform(k, op);
      _exit(send_str(out, r) ? 0 : 1);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
    }
    if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) send_str(out, "crash");
  }
  _exit(0);
}
static void start_zygote() {
  int a[2], b[2];
  if (pipe(a) || pipe(b)) return;
  pid_t pid = fork();
  if (pid == 0) {
    close(a[1]);
    close(b[0]);
    zygote_loop(a[0], b[1]);
  }
  close(a[0]);
  close(b[1]);
  to_zygote = a[1];
  from_zygote = b[0];
  zygote_owner = getpid();
}
static struct Hook {
  Hook() { engine_worker_start_hook = start_zygote; }
} hook;
static std::string fresh(const std::string& config, const std::vector<Op>& adds, const Op& op) {
  if (zygote_owner != getpid()) start_zygote();
  Packer p;
  p.str(config);
  p.num(adds.size());
  for (auto& a : adds) pack(p, a);
  pack(p, op);
  std::string r;
  if (!send_str(to_zygote, p.out) || !recv_str(from_zygote, r)) throw Excluded{"no reference process"};
  return r;
}
static std::string describe(const Op& o) {
  if (o.kind == Op::ENCODE) return "encode " + show(o.text) + (o.flag ? "" : " without special tokens");
  if (o.kind == Op::DECODE) {
    std::string r = "decode";
    for (int i : o.ids) r += " " + std::to_string(i);
    return r + (o.flag ? "" : " keeping special tokens");
  }
  std::string r = "add";
  for (auto& t : o.toks) r += " " + dump(ref::to_json(t));
  return r;
}

PROPERTY(C05, 2500,
         "histories of 2-14 encode/decode/add_tokens calls, moves and rebuilds over 1-3 live tokenizers (unrelated, "
         "or variants of one configuration sharing their words with other ids, merges or flags) "
         "on a small pool of texts, so that words repeat; and histories of hundreds to "
         "thousands of distinct words before the call that is judged. Every judged call is "
         "compared with the first call of a fresh tokenizer in a process that did nothing "
         "else. Non-trivial: a judged call repeats a word that this or another tokenizer saw "
         "before")
// another tokenizer over the same words
static J vary(Src& s, J cfg) {
  J model = cfg["model"];
  switch (s.draw(5)) {
    case 0: {  // other ids
      J v = model["vocab"];
      int n = v.o.size(), shift = s.range(1, 5);
      for (auto& p : v.o) p.second = J((int)((p.second.i + shift) % std::max(1, n)));
      model.set("vocab", v);
      break;
    }
    case 1: {  // fewer merges
      if (model["merges"].kind == J::ARR) {
        J m = J::arr();
        for (auto& x : model["merges"].a)
          if (s.coin()) m.a.push_back(x);
        model.set("merges", m);
      }
      break;
    }
    case 2: {  // merges in another order
      if (model["merges"].kind == J::ARR) {
        J m = model["merges"];
        s.shuffle(m.a);
        model.set("merges", m);
      }
      break;
    }
    case 3: {  // another flag of the model
      for (const char* f : {"fuse_unk", "byte_fallback", "ignore_merges"})
        if (model["type"].str() == "BPE" && s.coin()) model.set(f, !model[f].flag());
      if (model["type"].str() == "WordPiece") model.set("max_input_chars_per_word", s.range(0, 8));
      break;
    }
    default: {
      J p = cfg["pre_tokenizer"];
      if (p["type"].str() == "ByteLevel") p.set("add_prefix_space", !p["add_prefix_space"].flag());
      cfg.set("pre_tokenizer", p);
      J n = cfg["normalizer"];
      if (n["type"].str() == "BertNormalizer") n.set("lowercase", !n["lowercase"].flag());
      cfg.set("normalizer", n);
      cfg.set("padding", J());
    }
  }
  if (!cfg["model"].null()) cfg.set("model", model);
  return cfg;
}
struct Live {
  Config cfg;
  std::string text;
  std::vector<Op> adds;
  std::unique_ptr<sut::Tokenizer> k;
};
static void judge(Case& c, Live& l, const Op& o, const std::string& got, const std::string& history) {
  std::string want = fresh(l.text, l.adds, o);
  if (got != want)
    c.fail("after " + history + ": " + describe(o) + " gives " + got + " but a fresh tokenizer gives " + want);
}
CHECK_CASE(C05, histories, 6) {
  int n = c.s.range(1, 3);
  std::vector<Live> ls(n);
  std::vector<U> hints;
  std::string all;
  for (int i = 0; i < n; i++) {
    ls[i].cfg = gen_config(c.s);
    if (i > 0 && c.s.chance(2, 3)) {
      ls[i].cfg = ls[c.s.draw(i)].cfg;
      if (!c.s.chance(1, 5)) ls[i].cfg.json = vary(c.s, ls[i].cfg.json);
    }
    ls[i].text = dump(ls[i].cfg.json);
    for (auto& h : ls[i].cfg.hints) hints.push_back(h);
    all += std::to_string(i) + ": " + ls[i].text + "; ";
  }
  std::vector<U> pool;
  TextOpts to;
  to.hints = hints;
  to.max_pieces = 12;
  for (int k = c.s.range(1, 3); k > 0; k--) {
    pool.push_back(gen_text(c.s, to));
    if (c.s.chance(1, 3)) pool.push_back(pool.back() + U(U" ") + pool[0]);
    if (c.s.chance(1, 3)) {  // longer
      U t;
      for (int len = c.s.range(30, 300); (int)t.size() < len;) t += gen_unit(c.s) + c.s.pick(pool);
      pool.push_back(t);
    }
  }
  std::vector<std::vector<int>> id_pool;
  for (auto& l : ls) l.k.reset(new sut::Tokenizer(l.text));
  std::string history = "nothing";
  c.describe(all);
  int ops = c.s.range(2, 14);
  std::set<std::pair<bool, U>> seen;
  std::optional<std::pair<int, Op>> before;  // the last call
  bool changed = false;                      // something happened since
  for (int step = 0; step < ops; step++) {
    int i = c.s.draw(n);
    Op o;
    int kind = c.s.weighted({20, 8, 3, 1, 1});
    bool again = before && kind < 2 && c.s.chance(changed ? 2 : 1, changed ? 3 : 6);
    if (kind == 3) {  // moved to another place
      ls[i].k->move();
      changed = true;
      history += ", " + std::to_string(i) + " moved";
      continue;
    }
    if (kind == 4) {  // built again; everything it was given goes with it
      ls[i].k.reset();
      bool other = c.s.coin();
      if (other) {
        ls[i].cfg.json = vary(c.s, ls[i].cfg.json);
        ls[i].text = dump(ls[i].cfg.json);
      }
      ls[i].k.reset(new sut::Tokenizer(ls[i].text));
      ls[i].adds.clear();
      changed = true;
      history += ", " + std::to_string(i) + (other ? " replaced by " + ls[i].text : std::string(" built again"));
      continue;
    }
    if (again) {  // the same once more, perhaps with the other flag
      i = before->first;
      o = before->second;
      if (c.s.chance(1, 3)) o.flag = !o.flag;
    } else if (kind == 0) {
      o.kind = Op::ENCODE;
      o.text = c.s.pick(pool);
      o.flag = !c.s.chance(1, 4);
    } else if (kind == 1) {
      o.kind = Op::DECODE;
      o.flag = c.s.coin();
      if (!id_pool.empty() && c.s.chance(3, 4)) o.ids = c.s.pick(id_pool);
      else
        for (int k = c.s.size_upto(8); k > 0; k--) o.ids.push_back(c.s.range(0, 40));
    } else {
      o.kind = Op::ADD;
      AddedOpts ao;
      ao.max = 3;
      std::vector<U> from = hints;
      if (before && c.s.chance(2, 3)) {  // something the texts contain
        i = before->first;
        const U& t = before->second.kind == Op::ENCODE ? before->second.text : c.s.pick(pool);
        from.clear();
        for (int k = 0; k < 4 && !t.empty(); k++) {
          size_t at = c.s.draw(t.size());
          from.push_back(t.substr(at, c.s.range(1, 4)));
        }
        if (from.empty()) from = hints;
      }
      o.toks = gen_added(c.s, from, ao);
      o.flag = c.s.coin();
    }
    c.describe(all + "history: " + history + "; then tokenizer " + std::to_string(i) + ": " + describe(o));
    Enc e;
    std::string got = perform(*ls[i].k, o, &e);
    bool last = step == ops - 1;
    if (o.kind == Op::ADD) {
      ls[i].adds.push_back(o);
      changed = true;
      for (auto& t : o.toks) {
        c.label("add_tokens in between");
        pool.push_back(utf8_decode(t.content));
      }
    } else {
      if (o.kind == Op::ENCODE) {
        id_pool.push_back(e.ids);
        if (!seen.insert({false, o.text}).second && !o.text.empty()) c.nontrivial = true;
      }
      bool fresh_news = changed && again;
      before = {i, o};
      changed = false;
      if (last || fresh_news || c.s.chance(1, 3)) {
        c.label(o.kind == Op::ENCODE ? "judged encode" : "judged decode");
        judge(c, ls[i], o, got, history);
      }
    }
    history += (step ? ", " : "") + std::to_string(i) + " " + describe(o);
  }
}
// many different words, then a call that is judged
CHECK_CASE(C05, many_words, 1) {
  TokOpts to;
  to.allow_null_model = to.allow_trunc = to.allow_pad = false;
  Live l;
  l.cfg = gen_config(c.s, to);
  if (c.s.coin()) l.cfg.json.set("pre_tokenizer", J::obj({{"type", "BertPreTokenizer"}}));
  l.text = dump(l.cfg.json);
  l.k.reset(new sut::Tokenizer(l.text));
  std::vector<U> parts;
  for (auto& h : l.cfg.hints)
    if (!h.empty() && h.size() < 5) parts.push_back(h);
  while (parts.size() < 5) parts.push_back(gen_word(c.s, 3));
  int n = c.s.weighted({3, 1}) == 0 ? c.s.range(20, 200) : c.s.range(200, 1200);
  uint64_t x = c.s.draw(5000);
  std::vector<U> words;
  for (int i = 0; i < n; i++) {
    U w;
    for (uint64_t k = i + x; ; k /= parts.size()) {
      w += parts[k % parts.size()];
      if (k < parts.size()) break;
    }
    words.push_back(w);
  }
  c.describe(l.text + " after " + std::to_string(n) + " words made of its own in the order of counter " + std::to_string(x));
  int chunk = c.s.chance(1, 2) ? 1 : c.s.range(2, 60);
  for (int i = 0; i < n; i += chunk) {
    U t;
    for (int k = i; k < std::min(n, i + chunk); k++) t += (k > i ? U(U" ") : U()) + words[k];
    l.k->encode(t);
  }
  c.nontrivial = true;
  for (int probes = c.s.range(1, 3); probes > 0; probes--) {
    Op o;
    o.kind = Op::ENCODE;
    for (int k = c.s.range(1, 6); k > 0; k--) {
      if (!o.text.empty()) o.text += U' ';
      int at = c.s.chance(1, 3) ? c.s.range(0, std::min(n, 20) - 1) : c.s.draw(n);
      o.text += c.s.chance(4, 5) ? words[at] : gen_word(c.s, 5);
    }
    c.describe(c.desc + "; then " + describe(o));
    judge(c, l, o, perform(*l.k, o), std::to_string(n) + " words");
  }
}
// the model on its own: one model, shared words, interleaved
CHECK_CASE(C05, models, 2) {
  Vocab v;
  J spec;
  if (c.s.chance(1, 4)) {
    spec = gen_wordpiece(c.s, v);
  } else {
    BpeOpts bo;
    bo.byte_level = c.s.coin();
    spec = gen_bpe(c.s, v, bo);
  }
  J wrap = J::obj({{"model", spec}});
  J other = vary(c.s, wrap)["model"];
  std::string a = dump(spec), b = dump(other);
  sut::Model m1(a), m2(b);
  std::vector<U> words = v.words;
  for (int k = c.s.range(1, 4); k > 0; k--) words.push_back(gen_word(c.s, 6));
  words.erase(std::remove(words.begin(), words.end(), U()), words.end());
  if (words.empty()) words.push_back(U"a");
  c.describe(a + " and " + b);
  std::string hist;
  std::set<std::pair<int, U>> seen;
  for (int step = c.s.range(2, 12); step > 0; step--) {
    int which = c.s.draw(2);
    U w = c.s.pick(words);
    if (c.s.chance(1, 4)) w += c.s.pick(words);
    int at = c.s.range(0, 9);
    Piece p;
    p.text = utf8(w);
    p.s = at;
    p.e = at + w.size();
    sut::PTS x(U(at, U' ') + w);
    x.set_pieces({p});
    hist += " " + std::to_string(which) + ":" + show(w) + "@" + std::to_string(at);
    c.describe(a + " and " + b + " on" + hist);
    auto got = (which ? m2 : m1).tokenize(x).pieces();
    // a fresh model that never saw a word (same process)
    auto want = sut::Model(which ? b : a).tokenize(x).pieces();
    if (!seen.insert({which, w}).second || seen.count({1 - which, w})) c.nontrivial = true;
    c.check(got == want, "a model with a past gives " + show(got) + ", a fresh one " + show(want));
  }
}
// a model that saw thousands of words
static void many_words(Case& c, bool huge) {
  Vocab v;
  BpeOpts bo;
  bo.byte_level = c.s.coin();
  J spec = c.s.chance(1, 5) ? gen_wordpiece(c.s, v) : gen_bpe(c.s, v, bo);
  int n = huge ? c.s.range(2500, c.s.chance(1, 4) ? 70000 : 14000) : c.s.coin() ? c.s.range(20, 300) : c.s.range(300, 2500);
  // the library's time for a word grows with the number of merges
  if (n > 14000 && spec["merges"].a.size() > 8) {
    J few = J::arr();
    for (int i = 0; i < 8; i++) few.a.push_back(spec["merges"].a[i]);
    spec.set("merges", few);
  }
  std::string a = dump(spec);
  std::vector<U> parts;
  for (auto& h : v.words)
    if (!h.empty() && h.size() < 6) parts.push_back(h);
  while (parts.size() < 6) parts.push_back(gen_word(c.s, 2));
  uint64_t x = c.s.draw(5000);
  auto word = [&](int i) {
    U w;
    for (uint64_t k = i + x;; k /= parts.size()) {
      w += parts[k % parts.size()];
      if (k < parts.size()) return w;
    }
  };
  auto run = [&](const sut::Model& m, const std::vector<U>& ws) {
    U all;
    std::vector<Piece> ps;
    for (auto& w : ws) {
      if (w.empty()) continue;
      Piece p;
      p.text = utf8(w);
      p.s = all.size();
      p.e = p.s + w.size();
      ps.push_back(p);
      all += w;
    }
    sut::PTS t(all);
    t.set_pieces(ps);
    return m.tokenize(t).pieces();
  };
  c.describe(a + " after " + std::to_string(n) + " words made of its own in the order of counter " + std::to_string(x));
  sut::Model m(a);
  std::vector<U> all;
  for (int i = 0; i < n; i++) all.push_back(word(i));
  auto first = run(m, all);
  c.nontrivial = true;
  auto compare = [&](const std::vector<Piece>& got, const std::vector<Piece>& want, const char* what) {
    if (got == want) return;
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    auto at = [&](const std::vector<Piece>& p) { return i < p.size() ? show(std::vector<Piece>{p[i]}) : std::string("nothing"); };
    c.fail(std::string(what) + " word " + std::to_string(i) + ": " + at(got) + ", a fresh one " + at(want));
  };
  if (n <= 20000) compare(run(m, all), first, "seen a second time, a model gives for");
  // every word of the long run, as a fresh model has it among a few others
  if (huge ? n <= 20000 || c.s.chance(1, 4) : c.s.chance(1, 4)) {
    std::vector<Piece> want;
    int base = 0;
    for (int i = 0; i < n; i += 400) {
      std::vector<U> ws(all.begin() + i, all.begin() + std::min(n, i + 400));
      for (auto p : run(sut::Model(a), ws)) {
        p.s += base;
        p.e += base;
        want.push_back(p);
      }
      for (auto& w : ws) base += w.size();
    }
    compare(first, want, "after thousands of words, a model gives for");
    c.label("every word of a long run judged");
  }
  for (int probes = c.s.range(1, 3); probes > 0; probes--) {
    std::vector<U> ws;
    for (int k = c.s.range(1, 30); k > 0; k--) {
      int at = c.s.chance(1, 3) ? c.s.range(0, std::min(n, 20) - 1) : c.s.draw(n);
      ws.push_back(c.s.chance(4, 5) ? word(at) : gen_word(c.s, 5));
    }
    auto got = run(m, ws), want = run(sut::Model(a), ws);
    c.check(got == want, "a model with a past gives " + show(got) + ", a fresh one " + show(want));
  }
}
CHECK_CASE(C05, model_many_words, 1) { many_words(c, false); }
CHECK_RARE(C05, model_many_words_more, 24) { many_words(c, true); }

// words that share long beginnings, ends, or all but one character with words seen before
CHECK_RARE(C05, model_related_words, 60) {
  Vocab v;
  BpeOpts bo;
  bo.complete = true;
  J spec = gen_bpe(c.s, v, bo);
  std::string a = dump(spec);
  std::vector<U> parts;
  for (auto& h : v.words)
    if (!h.empty()) parts.push_back(h);
  while (parts.size() < 3) parts.push_back(gen_word(c.s, 2) + U"a");
  U w;
  bool one = c.s.coin();
  int n = c.s.coin() ? c.s.range(20, 270) : big_size(c.s, 1100);
  while ((int)w.size() < n) w += one ? parts[0] : c.s.pick(parts);
  w.resize(n);
  std::vector<U> words = {w};
  int step = std::max(1, n / 60);
  for (int i = 1; i < n; i++) {
    // every length near a power of two, and some of the others
    bool round = false;
    for (int k : {8, 16, 32, 64, 128, 256, 512, 1024}) round = round || std::abs(i - k) <= 1 || std::abs(n - i - k) <= 1;
    if (!round && i % step) continue;
    words.push_back(w.substr(0, i));
    words.push_back(w.substr(i));
    U other = w;
    other[i] = c.s.pick(parts)[0];
    words.push_back(other);
  }
  // cut where bytes, not characters, make round numbers
  std::string bytes = utf8(w);
  for (int k : {8, 16, 24, 32, 64, 100, 128, 255, 256, 500, 512, 1000, 1024, 2048}) {
    U head;
    if (k < (int)bytes.size() && utf8_valid(bytes.substr(0, k), &head)) words.push_back(head);
    if (k < (int)bytes.size() && utf8_valid(bytes.substr(bytes.size() - k), &head)) words.push_back(head);
  }
  if (c.s.coin())
    for (size_t i = words.size(); i > 1; i--) std::swap(words[i - 1], words[c.s.draw(i)]);
  c.describe(a + " on " + std::to_string(words.size()) + " beginnings, ends and neighbours of " + show(w));
  ref::Model m(spec);
  sut::Model k(a);
  c.nontrivial = true;
  for (auto& x : words) {
    if (x.empty()) continue;
    auto got = k.tokenize(sut::PTS(x)).pieces();
    auto want = sut::Model(a).tokenize(sut::PTS(x)).pieces();
    c.check(got == want, "after related words, " + show(x) + " of " + std::to_string(x.size()) + " characters gives " + show(got) + ", a fresh model " + show(want));
  }
}
