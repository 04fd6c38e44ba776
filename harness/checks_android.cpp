// C27: the Android binding, run by a Java virtual machine.
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <spawn.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

#include <fstream>
#include <memory>
#include <stdexcept>

#include "gen.h"

PROPERTY(C27, 12000,
         "the binding's Java class in a Java virtual machine with JNI checking on: 1-3 "
         "tokenizers made from generated configurations (characters beyond the BMP, written "
         "plainly or escaped; sometimes broken ones), then 1-12 calls of encode and decode on "
         "any of them, with texts of any characters, U+0000 and unpaired surrogates included; "
         "each answer compared with the C++ tokenizer's, exceptions included. Non-trivial: some "
         "text or answer holds a character beyond the BMP or U+0000, or a call is rejected")

namespace {
struct Dead {};
// A virtual machine that answers requests
class Jvm {
 public:
  Jvm() {
    std::string dir;
    {
      std::ifstream f(self() + ".jvm");
      std::getline(f, dir);
    }
    if (dir.empty()) throw Excluded{"no Java build"};
    int a[2], b[2];
    if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) throw Excluded{"no pipe"};
    to = a[1];
    from = b[0];
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_adddup2(&fa, a[0], 0);
    posix_spawn_file_actions_adddup2(&fa, b[1], 1);
    posix_spawn_file_actions_addopen(&fa, 2, "/dev/null", O_WRONLY, 0);
    std::vector<std::string> args = {"java", "-Xcheck:jni", "-XX:+DisplayVMOutputToStderr", "-Xmx200m", "-XX:+UseSerialGC",
                                     "-XX:TieredStopAtLevel=1", "-XX:-UsePerfData", "-XX:-CreateCoredumpOnCrash",
                                     "-XX:ErrorFile=/dev/null", "-cp", dir, "-Djava.library.path=" + dir, "Serve"};
    std::vector<char*> argv;
    for (auto& s : args) argv.push_back(const_cast<char*>(s.c_str()));
    argv.push_back(nullptr);
    int rc = posix_spawnp(&pid, "java", &fa, nullptr, argv.data(), environ);
    posix_spawn_file_actions_destroy(&fa);
    close(a[0]);
    close(b[1]);
    if (rc) throw Excluded{"no Java"};
    signal(SIGPIPE, SIG_IGN);
    // before any case depends on it
    put('P');
    number(0);
    string(std::u16string());
    put(0);
    send();
    if (get() != 'p') throw Excluded{"the virtual machine does not start"};
  }
  ~Jvm() {
    close(to);
    close(from);
    kill(pid, SIGKILL);
    waitpid(pid, nullptr, 0);
  }
  void put(int c) { out += static_cast<char>(c); }
  void number(int n) {
    for (int k = 24; k >= 0; k -= 8) put(static_cast<unsigned>(n) >> k & 255);
  }
  void string(const std::u16string& s) {
    number(s.size());
    for (char16_t c : s) {
      put(c >> 8);
      put(c & 255);
    }
  }
  void send() {
    size_t at = 0;
    while (at < out.size()) {
      ssize_t n = write(to, out.data() + at, out.size() - at);
      if (n <= 0) throw Dead{};
      at += n;
    }
    out.clear();
  }
  int get() {
    if (at == in.size()) {
      struct pollfd p = {from, POLLIN, 0};
      if (poll(&p, 1, 120000) <= 0) throw Dead{};
      char buf[65536];
      ssize_t n = read(from, buf, sizeof buf);
      if (n <= 0) throw Dead{};
      in.assign(buf, n);
      at = 0;
    }
    return static_cast<unsigned char>(in[at++]);
  }
  int get_number() {
    unsigned n = 0;
    for (int k = 0; k < 4; k++) n = n << 8 | get();
    return n;
  }
  std::u16string get_string() {
    std::u16string s(get_number(), 0);
    for (auto& c : s) {
      c = get() << 8;
      c |= get();
    }
    return s;
  }
  int made = 0;

 private:
  static std::string self() {
    char b[4096];
    ssize_t n = readlink("/proc/self/exe", b, sizeof b);
    return n > 0 ? std::string(b, n) : "";
  }
  pid_t pid = 0;
  int to = -1, from = -1;
  std::string out, in;
  size_t at = 0;
};
std::unique_ptr<Jvm> vm;
pid_t vm_owner = 0;
Jvm& machine() {
  if (vm && (vm_owner != getpid() || vm->made > 1500)) {
    if (vm_owner != getpid()) vm.release();  // another process's
    vm.reset();
  }
  if (!vm) {
    vm.reset(new Jvm());
    vm_owner = getpid();
  }
  return *vm;
}

std::u16string utf16(const U& t) {
  std::u16string r;
  for (char32_t c : t) {
    if (c < 0x10000) {
      r += static_cast<char16_t>(c);
    } else {
      r += static_cast<char16_t>(0xD7C0 + (c >> 10));
      r += static_cast<char16_t>(0xDC00 + (c & 1023));
    }
  }
  return r;
}
std::string show16(const std::u16string& s) {
  std::string r;
  char b[8];
  for (char16_t c : s.substr(0, 300)) {
    if (c >= 32 && c < 127) {
      r += static_cast<char>(c);
    } else {
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    }
  }
  return "\"" + r + "\"";
}
std::string show_ints(const std::vector<int>& t) {
  std::string r;
  for (size_t i = 0; i < t.size() && i < 100; i++) r += (i ? " " : "") + std::to_string(t[i]);
  return "[" + r + (t.size() > 100 ? " ..." : "") + "]";
}
bool odd(const U& t) {
  for (char32_t c : t)
    if (c == 0 || c > 0xFFFF) return true;
  return false;
}

void binding(Case& c, bool big) {
  struct Pair {
    std::unique_ptr<sut::Tokenizer> k;
    Config cfg;
    std::vector<int> last;
  };
  std::vector<Pair> ps(c.s.range(1, 3));
  std::string d;
  Jvm* v = &machine();
  auto lost = [&](const std::string& what) {
    vm.reset();
    c.fail(what + " ends the process, or does not return");
  };
  int slot = 0;
  for (auto& p : ps) {
    p.cfg = gen_config(c.s);
    if (big) enlarge(c.s, p.cfg);
    std::string text = c.s.coin() ? dump(p.cfg.json) : dump_random(p.cfg.json, c.s);
    if (c.s.chance(1, 12)) {  // a broken one
      static const std::vector<std::string> junk = {"", "{", "nil", "[]", "\"\xF0\x9F\x98\x80", "{\"model\":3}"};
      text = c.s.coin() ? c.s.pick(junk) : text.substr(0, c.s.draw(text.size()));
      while (!text.empty() && !utf8_valid(text, nullptr)) text.pop_back();
    }
    d += " tokenizer " + std::to_string(slot) + " " + text;
    c.describe(d);
    try {
      p.k.reset(new sut::Tokenizer(text));
    } catch (const std::exception&) {
      c.nontrivial = true;
      c.label("configuration rejected");
    }
    int answer = 0;
    try {
      v->made++;
      v->put('N');
      v->number(slot++);
      v->string(utf16(utf8_decode(text)));
      v->put(0);
      v->send();
      answer = v->get();
      if (answer == 'x') v->get_string();
    } catch (const Dead&) {
      lost("the constructor");
    }
    c.check((answer == 'n') == !!p.k, p.k ? "the constructor throws" : "the constructor throws no exception");
  }
  for (int n = c.s.range(1, 12); n > 0; n--) {
    int i = c.s.draw(ps.size());
    Pair& p = ps[i];
    if (!p.k) continue;
    bool flag = c.s.coin();
    bool thrown = false;
    if (c.s.chance(3, 5)) {
      U t = big ? gen_big_text_for(c.s, p.cfg) : gen_text_for(c.s, p.cfg, 30);
      if (c.s.chance(1, 6)) t.insert(c.s.draw(t.size() + 1), c.s.coin() ? U(1, U'\0') : U(U"😀"));
      std::u16string w = utf16(t);
      bool judged = true;
      if (c.s.chance(1, 8)) {
        w.insert(w.begin() + c.s.draw(w.size() + 1), static_cast<char16_t>((c.s.coin() ? 0xD800 : 0xDC00) + c.s.draw(1024)));
        judged = false;
        c.label("unpaired surrogate");
      }
      d += "; encode " + std::to_string(i) + " " + show16(w) + (flag ? "" : " without special tokens");
      c.describe(d);
      if (odd(t) || !judged) c.nontrivial = true;
      std::vector<int> want;
      if (judged) try {
          want = p.k->encode(t, flag).ids;
        } catch (const std::exception&) {
          thrown = true;
        }
      std::vector<int> got;
      int answer = 0;
      try {
        v->put('E');
        v->number(i);
        v->string(w);
        v->put(flag);
        v->send();
        answer = v->get();
        if (answer == 'i') {
          got.resize(v->get_number());
          for (auto& x : got) x = v->get_number();
        } else {
          v->get_string();
        }
      } catch (const Dead&) {
        lost("encode");
      }
      if (!judged) continue;
      if (thrown) c.nontrivial = true;
      c.check((answer == 'x') == thrown, thrown ? "encode throws no exception" : "encode throws");
      c.check(got == want, "encode gives " + show_ints(got) + " and not " + show_ints(want));
      p.last = got;
    } else {
      std::vector<int> ids = p.last;
      for (int k = c.s.size_upto(12); k > 0; k--) ids.push_back(c.s.range(-1, 80));
      d += "; decode " + std::to_string(i) + " " + show_ints(ids) + (flag ? " skipping special tokens" : "");
      c.describe(d);
      std::string want;
      try {
        want = p.k->decode(ids, flag);
      } catch (const std::exception&) {
        thrown = true;
      }
      std::u16string got;
      int answer = 0;
      try {
        v->put('D');
        v->number(i);
        v->number(ids.size());
        for (int x : ids) v->number(x);
        v->put(flag);
        v->send();
        answer = v->get();
        got = v->get_string();
      } catch (const Dead&) {
        lost("decode");
      }
      if (thrown) c.nontrivial = true;
      c.check((answer == 'x') == thrown, thrown ? "decode throws no exception" : "decode throws " + show16(got));
      c.check(answer != 'm', "decode changes the ids it is given");
      U u;
      if (!utf8_valid(want, &u)) {
        c.label("part of a character: not judged");
        continue;
      }
      if (odd(u)) c.nontrivial = true;
      c.check(thrown || got == utf16(u), "decode gives " + show16(got) + " and not " + show16(utf16(u)));
    }
  }
}
}  // namespace
CHECK_CASE(C27, binding, 1) { binding(c, false); }
CHECK_RARE(C27, binding_large, 60) { binding(c, true); }
