#include "engine.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unicode/uloc.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unordered_set>

void (*engine_worker_start_hook)() = nullptr;

static uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ULL) {
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return h;
}

uint64_t Src::draw(uint64_t n) {
  uint64_t v = 0;
  if (n == 0) n = 1;
  if (replay) {
    v = pos < replay->size() ? (*replay)[pos] % n : 0;
    pos++;
  } else if (data) {
    if (n > 1) {
      int bytes = n <= 256 ? 1 : n <= 65536 ? 2 : 4;
      for (int i = 0; i < bytes; i++)
        v = v << 8 | (pos < size ? data[pos++] : 0);
      v %= n;
    }
  } else if (record.size() < forced.size()) {
    v = forced[record.size()] % n;
  } else {
    v = splitmix(state) % n;
  }
  if (shared) {
    if (record.size() < shared_cap) {
      shared[record.size()] = v;
      *shared_n = record.size() + 1;
    }
  }
  record.push_back(v);
  return v;
}
int Src::weighted(std::initializer_list<int> weights) {
  int total = 0;
  for (int w : weights) total += w;
  int v = draw(total), i = 0;
  for (int w : weights) {
    if (v < w) return i;
    v -= w;
    i++;
  }
  return 0;
}
int Src::size_upto(int max) {
  int small = std::min(max, 6);
  switch (weighted({12, 6, 1})) {
    case 0:
      return range(0, small);
    case 1:
      return range(0, std::min(max, 24));
    default:
      return range(0, max);
  }
}

std::vector<Check>& registry() {
  static std::vector<Check> r;
  return r;
}
std::map<std::string, PropInfo>& prop_infos() {
  static std::map<std::string, PropInfo> r;
  return r;
}

std::string quote(const std::string& s) {
  std::string r = "\"";
  char buf[16];
  for (size_t i = 0; i < s.size(); i++) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c < 0x20 || c == 0x7f) {
      snprintf(buf, sizeof buf, "\\u%04x", c);
      r += buf;
    } else {
      r += c;
    }
  }
  return r + "\"";
}
// quote() of possibly ill-formed UTF-8: bad bytes become U+FFFD
static std::string quote_safe(const std::string& s) {
  std::string t;
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    int n = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
    bool ok = n > 0 && i + n <= s.size();
    for (int k = 1; ok && k < n; k++) ok = (s[i + k] & 0xc0) == 0x80;
    if (ok && n == 3) {
      unsigned cp = (c & 15) << 12 | (s[i + 1] & 63) << 6 | (s[i + 2] & 63);
      ok = cp >= 0x800 && !(cp >= 0xd800 && cp < 0xe000);
    }
    if (ok && n == 4) {
      unsigned cp = (c & 7) << 18 | (s[i + 1] & 63) << 12 | (s[i + 2] & 63) << 6;
      ok = cp >= 0x10000 && cp <= 0x10ffff;
    }
    if (ok) {
      t.append(s, i, n);
      i += n;
    } else {
      t += "\xef\xbf\xbd";
      i++;
    }
  }
  return quote(t);
}

static volatile int tick_limit = 200;  // x 100 ms of CPU time

static const uint64_t all_selectors = 1 << 20;
// Which check a value below all_selectors stands for; when asked, the first
// value that stands for it.
static const Check* select(const std::vector<const Check*>& checks, uint64_t v,
                           const Check* wanted = nullptr, uint64_t* first = nullptr) {
  const uint64_t all = all_selectors;
  uint64_t cases = std::max(1, prop_infos()[checks[0]->prop].quick_cases);
  uint64_t total = 0, rare = 0;
  auto share = [&](const Check* k) { return std::max<uint64_t>(1, all * k->rare / cases); };
  for (auto* k : checks) {
    total += k->weight;
    rare += k->rare ? share(k) : 0;
  }
  uint64_t ordinary = total ? all - std::min(all, rare) : 0, sum = 0, at = 0;
  const Check* chosen = nullptr;
  for (auto* k : checks) {  // the ordinary ones first
    if (k->rare) continue;
    if (k == wanted) *first = at;
    sum += k->weight;
    at = ordinary * sum / total;
    if (!chosen && v < at) chosen = k;
  }
  at = ordinary;
  for (auto* k : checks) {
    if (!k->rare) continue;
    if (k == wanted) *first = at;
    at += share(k);
    if (!chosen && v < at) chosen = k;
  }
  return chosen ? chosen : checks.back();
}
// The outcomes that the i-th case of a run starts with.
static std::vector<uint64_t> forced_start(const std::vector<const Check*>& checks, uint64_t i) {
  for (auto* k : checks) {
    if (i < (uint64_t)k->each) {
      uint64_t first = 0;
      select(checks, 0, k, &first);
      return {first, 0, i};
    }
    i -= k->each;
  }
  return {};
}

// A third of the cases run as on a machine set to another language, which must
// make no difference. The harness itself asks nothing that depends on it.
static std::string set_locale(uint64_t choice) {
  static const char* const names[] = {"tr_TR", "lt_LT", "th_TH", "az_AZ"};
  static const std::string usual = uloc_getDefault();
  static std::string current = usual;
  std::string name = choice < 8 ? usual : names[choice - 8];
  if (name != current) {
    UErrorCode status = U_ZERO_ERROR;
    uloc_setDefault(name.c_str(), &status);
    current = name;
  }
  return choice < 8 ? "" : " (with the default locale " + name + ")";
}

void run_one(const std::vector<const Check*>& checks, Case& c) {
  const Check* chosen = select(checks, c.s.draw(all_selectors));
  c.label("check:" + chosen->name);
  std::string where = set_locale(c.s.draw(12));
  tick_limit = chosen->rare ? 600 : 200;
  try {
    chosen->fn(c);
  } catch (const Violation& e) {
    throw Violation{"[" + chosen->name + "] " + e.msg + where};
  } catch (const Excluded&) {
    throw;
  } catch (const std::exception& e) {
    throw Violation{"[" + chosen->name + "] unexpected exception: " + e.what() + where};
  }
}

// ---------------------------------------------------------------- workers
enum { CAP = 1 << 18, MSG = 1 << 14 };
struct Shared {
  volatile uint64_t index;
  volatile uint64_t done;
  uint32_t n;
  volatile int failed;  // 1 violation, 2 hang, 3 memory
  uint64_t choices[CAP];
  char msg[MSG];
  char desc[MSG];
};
static Shared* cur_shared = nullptr;
static volatile int case_ticks = 0;
static long rss_limit_pages = 3L * 1024 * 1024 / 4;

static void on_tick(int) {
  case_ticks = case_ticks + 1;
  if (case_ticks > tick_limit) {
    if (cur_shared) cur_shared->failed = 2;
    _exit(43);
  }
  int fd = open("/proc/self/statm", O_RDONLY);
  if (fd >= 0) {
    char buf[128];
    int n = read(fd, buf, sizeof buf - 1);
    close(fd);
    if (n > 0) {
      buf[n] = 0;
      const char* p = strchr(buf, ' ');
      long pages = 0;
      for (p = p ? p + 1 : buf; *p >= '0' && *p <= '9'; p++)
        pages = pages * 10 + (*p - '0');
      if (pages > rss_limit_pages) {
        if (cur_shared) cur_shared->failed = 3;
        _exit(44);
      }
    }
  }
}
static void start_timer() {
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_tick;
  sa.sa_flags = SA_RESTART;
  sigaction(SIGPROF, &sa, nullptr);
  struct itimerval it = {{0, 100000}, {0, 100000}};
  setitimer(ITIMER_PROF, &it, nullptr);
}
static void put(char* dst, const std::string& s) {
  size_t n = std::min<size_t>(s.size(), MSG - 1);
  memcpy(dst, s.data(), n);
  dst[n] = 0;
}

void Case::describe(const std::string& d) {
  desc = d;
  if (cur_shared) put(cur_shared->desc, d);
}

struct Stats {
  uint64_t evaluations = 0, nontrivial = 0, excluded = 0;
  int slowest = 0;  // tenths of a second
  std::map<std::string, uint64_t> labels, excluded_why;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
};

static uint64_t case_seed(uint64_t seed, const std::string& prop, uint64_t i) {
  uint64_t x = fnv(prop, seed * 0x9e3779b97f4a7c15ULL + 12345) + i * 0xd1342543de82ef95ULL;
  splitmix(x);
  return x;
}

static Src nth(const std::vector<const Check*>& checks, uint64_t seed, const std::string& prop, uint64_t i) {
  Src s(case_seed(seed, prop, i));
  s.forced = forced_start(checks, i);
  return s;
}
static std::vector<const Check*> checks_of(const std::string& prop) {
  std::vector<const Check*> r;
  const char* only = getenv("PBT_ONLY");
  for (auto& c : registry())
    if (c.prop == prop && (!only || c.name == only)) r.push_back(&c);
  return r;
}

static std::string scratch;
std::string scratch_dir() { return scratch; }

// Runs one case; returns false when the property is violated.
static bool run_case(const std::vector<const Check*>& checks, Src& s,
                     Shared* sh, Stats* st) {
  case_ticks = 0;
  sh->n = 0;
  sh->desc[0] = 0;
  s.shared = sh->choices;
  s.shared_n = &sh->n;
  s.shared_cap = CAP;
  s.record.reserve(256);
  Case c(s);
  try {
    run_one(checks, c);
  } catch (const Violation& v) {
    put(sh->msg, v.msg);
    put(sh->desc, c.desc);
    sh->failed = 1;
    return false;
  } catch (const Excluded& e) {
    if (st) {
      st->excluded++;
      st->excluded_why[e.why]++;
    }
    return true;
  }
  if (st) {
    st->evaluations++;
    st->slowest = std::max(st->slowest, int(case_ticks));
    for (auto& l : c.labels) st->labels[l]++;
    if (c.nontrivial) {
      st->nontrivial++;
      if (st->distinct.insert(fnv(c.desc)).second && st->samples.size() < 3 &&
          c.desc.size() < 1500)
        st->samples.push_back(c.desc);
    }
  }
  return true;
}

static void write_stats(const std::string& path, const Stats& st) {
  std::ofstream f(path);
  f << st.evaluations << " " << st.nontrivial << " " << st.excluded << " " << st.slowest << "\n";
  f << st.labels.size() << "\n";
  for (auto& l : st.labels) f << l.second << " " << l.first << "\n";
  f << st.excluded_why.size() << "\n";
  for (auto& l : st.excluded_why) f << l.second << " " << l.first << "\n";
  f << st.samples.size() << "\n";
  for (auto& l : st.samples) f << l.size() << "\n" << l << "\n";
  f << st.distinct.size() << "\n";
  for (uint64_t h : st.distinct) f << h << "\n";
}
static void read_stats(const std::string& path, Stats& st) {
  std::ifstream f(path);
  uint64_t a, b, e, n;
  int slowest;
  if (!(f >> a >> b >> e >> slowest)) return;
  st.slowest = std::max(st.slowest, slowest);
  st.evaluations += a;
  st.nontrivial += b;
  st.excluded += e;
  for (auto* m : {&st.labels, &st.excluded_why}) {
    f >> n;
    for (uint64_t i = 0; i < n; i++) {
      uint64_t k;
      std::string l;
      f >> k;
      f.ignore();
      std::getline(f, l);
      (*m)[l] += k;
    }
  }
  f >> n;
  for (uint64_t i = 0; i < n; i++) {
    size_t len;
    f >> len;
    f.ignore();
    std::string l(len, 0);
    f.read(&l[0], len);
    st.samples.push_back(l);
  }
  f >> n;
  for (uint64_t i = 0; i < n; i++) {
    uint64_t h;
    f >> h;
    st.distinct.insert(h);
  }
}

static void child_quiet(int fd) {
  dup2(fd, 2);
}

struct Failure {
  bool failed = false;
  std::string kind, msg, desc;
};
static std::string last_lines(const std::string& path) {
  std::ifstream f(path);
  std::string line, r;
  int frames = 0;
  while (std::getline(f, line)) {
    if (line.find("ERROR: ") != std::string::npos ||
        line.find("WARNING: ThreadSanitizer") != std::string::npos ||
        line.find("runtime error") != std::string::npos ||
        line.find("Assertion") != std::string::npos ||
        line.find("terminate") != std::string::npos)
      r += line + " | ";
    else if (frames < 12 && line.find("    #") == 0 && line.find("/src/") != std::string::npos) {
      r += line.substr(4) + " | ";
      frames++;
    }
    if (r.size() > 3000) break;
  }
  return r;
}
static Failure describe_exit(int status, Shared* sh, const std::string& errfile) {
  Failure f;
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return f;
  f.failed = true;
  f.desc = sh->desc;
  if (sh->failed == 1) {
    f.kind = "violation";
    f.msg = sh->msg;
  } else if (sh->failed == 2) {
    f.kind = "hang";
    f.msg = "no result after 20 s (large cases: 60 s) of CPU time";
  } else if (sh->failed == 3) {
    f.kind = "memory";
    f.msg = "more than 3 GB of memory used";
  } else {
    f.kind = "crash";
    f.msg = WIFSIGNALED(status) ? "killed by signal " + std::to_string(WTERMSIG(status))
                                : "aborted";
    f.msg += ": " + last_lines(errfile);
  }
  return f;
}

static Shared* new_shared() {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(2);
  }
  return static_cast<Shared*>(p);
}

// Runs a function in a forked child and says how it failed, if it did.
static Failure in_child(Shared* sh, const std::function<bool()>& body) {
  sh->failed = 0;
  sh->n = 0;
  sh->msg[0] = sh->desc[0] = 0;
  std::string errfile = scratch + "/err.child";
  int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    child_quiet(fd);
    cur_shared = sh;
    if (engine_worker_start_hook) engine_worker_start_hook();
    start_timer();
    bool ok = body();
    _exit(ok ? 0 : 10);
  }
  close(fd);
  int status;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
  }
  return describe_exit(status, sh, errfile);
}

static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

static Failure try_choices(const std::vector<const Check*>& checks, Shared* sh,
                           const std::vector<uint64_t>& ch,
                           std::vector<uint64_t>* used = nullptr) {
  Failure f = in_child(sh, [&] {
    Src s(&ch);
    return run_case(checks, s, sh, nullptr);
  });
  if (used) used->assign(sh->choices, sh->choices + sh->n);
  return f;
}

static std::vector<uint64_t> shrink(const std::vector<const Check*>& checks,
                                    Shared* sh, std::vector<uint64_t> best,
                                    Failure* last) {
  double limit = now() + 40;
  int runs = 0;
  auto attempt = [&](std::vector<uint64_t> cand) {
    if (cand == best || now() > limit || runs > 4000) return false;
    runs++;
    std::vector<uint64_t> used;
    Failure f = try_choices(checks, sh, cand, &used);
    if (!f.failed || f.kind != last->kind) return false;
    if (used.size() < cand.size()) cand = used;
    while (!cand.empty() && cand.back() == 0) cand.pop_back();
    best = cand;
    *last = f;
    return true;
  };
  bool progress = true;
  while (progress && now() < limit) {
    progress = false;
    for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
      for (size_t i = 0; i + len <= best.size();) {
        std::vector<uint64_t> c(best);
        c.erase(c.begin() + i, c.begin() + i + len);
        if (attempt(c)) {
          progress = true;
        } else {
          i += len;
        }
        if (now() > limit) break;
      }
      if (len == 1) break;
    }
    for (size_t len = std::max<size_t>(1, best.size() / 4); len >= 1; len /= 2) {
      for (size_t i = 0; i < best.size(); i += len) {
        std::vector<uint64_t> c(best);
        bool any = false;
        for (size_t j = i; j < std::min(best.size(), i + len); j++) {
          any |= c[j] != 0;
          c[j] = 0;
        }
        if (any && attempt(c)) progress = true;
        if (now() > limit) break;
      }
      if (len == 1) break;
    }
    for (size_t i = 0; i < best.size() && now() < limit; i++) {
      while (i < best.size() && best[i] > 0) {
        std::vector<uint64_t> c(best);
        c[i] = best[i] / 2;
        if (attempt(c)) {
          progress = true;
          continue;
        }
        c = best;
        c[i] = best[i] - 1;
        if (attempt(c)) {
          progress = true;
          continue;
        }
        break;
      }
    }
  }
  return best;
}

struct Options {
  std::string prop, tier = "quick", out, replaydir = "replays";
  uint64_t seed = 1, cases = 0;
  int workers = 8;
  double wall = 600;
};

static int report(const Options& o, const std::string& kind, const Failure& f,
                  const std::vector<uint64_t>& choices, uint64_t worker,
                  uint64_t index) {
  mkdir(o.replaydir.c_str(), 0755);
  std::ostringstream body;
  body << "property " << o.prop << "\nkind " << kind << "\n";
  if (kind == "choices") {
    body << "choices " << choices.size();
    for (uint64_t c : choices) body << " " << c;
    body << "\n";
  } else {
    body << "prefix " << o.seed << " " << o.workers << " " << worker << " "
         << index << "\n";
  }
  auto brief = [](const std::string& t) { return quote_safe(t.size() > 1600 ? t.substr(0, 1600) + "..." : t); };
  body << "failure " << f.kind << "\n# " << brief(f.msg) << "\n# case: "
       << brief(f.desc) << "\n";
  char name[64];
  snprintf(name, sizeof name, "%s-%012llx.replay", o.prop.c_str(),
           static_cast<unsigned long long>(fnv(body.str()) & 0xffffffffffffULL));
  std::string path = o.replaydir + "/" + name;
  std::ofstream(path) << body.str();
  printf("failure (%s): %s\ncase: %s\n", f.kind.c_str(), brief(f.msg).c_str(),
         brief(f.desc).c_str());
  printf("VIOLATION property=%s replay=%s\n", o.prop.c_str(), path.c_str());
  fflush(stdout);
  return 1;
}

static std::string rule_of(const std::string& prop) {
  std::string large, each;
  for (auto* k : checks_of(prop))
    if (k->each) each += (each.empty() ? "" : ", ") + k->name + " (" + std::to_string(k->each) + " parts)";
    else if (k->rare) large += (large.empty() ? "" : ", ") + k->name + " (about " + std::to_string(k->rare) + ")";
  std::string r = prop_infos()[prop].rule;
  if (!large.empty())
    r += ". Large cases of each quick run, of up to thousands or tens of thousands of characters, "
         "tokens, entries or members: " + large;
  if (!each.empty()) r += ". Exhaustive sweeps, in every run: " + each;
  return r;
}
static void write_evidence(const Options& o, const Stats& st, double wall,
                           int violations, const std::vector<std::string>& notes) {
  if (o.out.empty()) return;
  std::ofstream f(o.out);
  f << "{\"property\": " << quote(o.prop) << ", \"tier\": " << quote(o.tier)
    << ", \"seed\": " << o.seed << ", \"level\": \"exploration\",\n \"coverage\": {"
    << "\"evaluations\": " << st.evaluations
    << ", \"distinct_nontrivial\": " << st.distinct.size()
    << ", \"excluded\": " << st.excluded
    << ",\n  \"rule\": " << quote_safe(rule_of(o.prop))
    << ",\n  \"classes\": {";
  bool first = true;
  for (auto& l : st.labels) {
    f << (first ? "" : ", ") << quote_safe(l.first) << ": " << l.second;
    first = false;
  }
  f << "},\n  \"excluded_classes\": {";
  first = true;
  for (auto& l : st.excluded_why) {
    f << (first ? "" : ", ") << quote_safe(l.first) << ": " << l.second;
    first = false;
  }
  f << "},\n  \"notes\": [";
  first = true;
  for (auto& s : notes) {
    f << (first ? "" : ", ") << quote_safe(s);
    first = false;
  }
  f << "],\n  \"samples\": [";
  std::vector<std::string> samples = st.samples;
  std::stable_sort(samples.begin(), samples.end(), [](auto& a, auto& b) {
    return a.size() < b.size();
  });
  first = true;
  // a spread of sizes rather than only the shortest
  size_t step = std::max<size_t>(1, samples.size() / 8);
  for (size_t i = 0; i < samples.size(); i += step) {
    f << (first ? "" : ",\n   ") << quote_safe(samples[i]);
    first = false;
  }
  f << "]},\n \"violations\": " << violations << ", \"wall_s\": " << wall << "}\n";
}

static void worker_body(const Options& o, const std::vector<const Check*>& checks,
                        Shared* sh, int w, uint64_t from, double deadline,
                        const std::string& statfile) {
  Stats st;
  for (uint64_t i = from; i < o.cases; i += o.workers) {
    if (now() > deadline) {
      st.labels["stopped early: wall budget"]++;
      break;
    }
    sh->index = i;
    Src s = nth(checks, o.seed, o.prop, i);
    bool ok = run_case(checks, s, sh, &st);
    if (!ok) {
      write_stats(statfile, st);
      _exit(10);
    }
    sh->done = i;
  }
  write_stats(statfile, st);
  _exit(0);
}

static int cmd_run(Options o) {
  double t0 = now();
  auto checks = checks_of(o.prop);
  if (checks.empty()) {
    fprintf(stderr, "no checks for %s\n", o.prop.c_str());
    return 2;
  }
  if (o.cases == 0) o.cases = prop_infos()[o.prop].quick_cases;
  double deadline = t0 + o.wall;
  std::vector<Shared*> sh;
  std::vector<pid_t> pids(o.workers);
  std::vector<int> gen(o.workers, 0);
  std::vector<std::string> statfiles;
  for (int w = 0; w < o.workers; w++) sh.push_back(new_shared());
  Shared* aux = new_shared();
  auto spawn = [&](int w, uint64_t from) {
    std::string base = scratch + "/w" + std::to_string(w) + "." + std::to_string(gen[w]++);
    statfiles.push_back(base + ".stats");
    std::string errfile = scratch + "/err." + std::to_string(w);
    sh[w]->failed = 0;
    sh[w]->msg[0] = sh[w]->desc[0] = 0;
    int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      child_quiet(fd);
      cur_shared = sh[w];
      if (engine_worker_start_hook) engine_worker_start_hook();
      start_timer();
      worker_body(o, checks, sh[w], w, from, deadline, base + ".stats");
    }
    close(fd);
    pids[w] = pid;
  };
  for (int w = 0; w < o.workers; w++) spawn(w, w);
  int running = o.workers, unconfirmed = 0;
  std::vector<std::string> notes;
  int violations = 0;
  std::function<void()> finish = [&] {
    Stats st;
    for (auto& f : statfiles) read_stats(f, st);
    write_evidence(o, st, now() - t0, violations, notes);
    printf("%s: %llu cases, %llu distinct non-trivial, %llu excluded, %.1f s\n",
           o.prop.c_str(), (unsigned long long)st.evaluations,
           (unsigned long long)st.distinct.size(),
           (unsigned long long)st.excluded, now() - t0);
    if (getenv("PBT_LABELS")) {
      printf("  slowest case %.1f s of CPU time\n", st.slowest / 10.0);
      for (auto& l : st.labels) printf("  %8llu %s\n", (unsigned long long)l.second, l.first.c_str());
      for (auto& l : st.excluded_why) printf("  excluded %8llu %s\n", (unsigned long long)l.second, l.first.c_str());
    }
    fflush(stdout);
  };
  while (running > 0) {
    int status;
    pid_t pid = waitpid(-1, &status, 0);
    if (pid < 0) {
      if (errno == EINTR) continue;
      break;
    }
    int w = -1;
    for (int i = 0; i < o.workers; i++)
      if (pids[i] == pid) w = i;
    if (w < 0) continue;
    pids[w] = -1;
    running--;
    Failure f = describe_exit(status, sh[w], scratch + "/err." + std::to_string(w));
    if (!f.failed) continue;
    uint64_t index = sh[w]->index;
    std::vector<uint64_t> choices(sh[w]->choices, sh[w]->choices + sh[w]->n);
    // confirm in fresh processes, three times
    int again = 0;
    Failure last = f;
    for (int k = 0; k < 3; k++) {
      Failure g = try_choices(checks, aux, choices);
      if (g.failed) {
        again++;
        last = g;
      } else {
        break;
      }
    }
    bool prefix = false;
    if (again < 3) {
      again = 0;
      for (int k = 0; k < 3; k++) {
        Failure g = in_child(aux, [&] {
          for (uint64_t i = w; i <= index; i += o.workers) {
            Src s = nth(checks, o.seed, o.prop, i);
            if (!run_case(checks, s, aux, nullptr)) return false;
          }
          return true;
        });
        if (!g.failed) break;
        again++;
        last = g;
      }
      prefix = again == 3;
    }
    if (again == 3) {
      for (int i = 0; i < o.workers; i++)
        if (pids[i] > 0) {
          kill(pids[i], SIGKILL);
          waitpid(pids[i], &status, 0);
          pids[i] = -1;
        }
      violations = 1;
      if (!prefix) choices = shrink(checks, aux, choices, &last);
      int rc = report(o, prefix ? "prefix" : "choices", last, choices, w, index);
      finish();
      return rc;
    }
    notes.push_back("inconclusive, not reproduced 3 times: " + f.kind + ": " + f.msg);
    fprintf(stderr, "inconclusive (not reproduced): %s %s\n", f.kind.c_str(), f.msg.c_str());
    if (++unconfirmed <= 8) {
      spawn(w, index + o.workers);
      running++;
    }
  }
  finish();
  return 0;
}

static int cmd_replay(const std::string& path) {
  std::ifstream f(path);
  std::string word, prop, kind;
  std::vector<uint64_t> choices;
  uint64_t seed = 0, workers = 0, worker = 0, index = 0;
  while (f >> word) {
    if (word == "property") f >> prop;
    else if (word == "kind") f >> kind;
    else if (word == "choices") {
      size_t n;
      f >> n;
      choices.resize(n);
      for (auto& c : choices) f >> c;
    } else if (word == "prefix") f >> seed >> workers >> worker >> index;
    else std::getline(f, word);
  }
  auto checks = checks_of(prop);
  if (checks.empty()) {
    fprintf(stderr, "cannot read replay file %s\n", path.c_str());
    return 2;
  }
  Shared* sh = new_shared();
  Failure r = in_child(sh, [&] {
    if (kind == "choices") {
      Src s(&choices);
      return run_case(checks, s, sh, nullptr);
    }
    for (uint64_t i = worker; i <= index; i += workers) {
      Src s = nth(checks, seed, prop, i);
      if (!run_case(checks, s, sh, nullptr)) return false;
    }
    return true;
  });
  if (!r.failed) {
    printf("replay: the property holds on this case\n");
    return 0;
  }
  printf("failure (%s): %s\ncase: %s\nVIOLATION property=%s replay=%s\n",
         r.kind.c_str(), quote_safe(r.msg.substr(0, 4000)).c_str(), quote_safe(r.desc.substr(0, 4000)).c_str(),
         prop.c_str(), path.c_str());
  return 1;
}

// shows what one case looks like, in process
static int cmd_show(const Options& o, uint64_t index) {
  auto checks = checks_of(o.prop);
  Src s = nth(checks, o.seed, o.prop, index);
  Case c(s);
  try {
    run_one(checks, c);
  } catch (const Violation& v) {
    printf("VIOLATED %s\n", v.msg.c_str());
  } catch (const Excluded& e) {
    printf("excluded %s\n", e.why.c_str());
  }
  printf("%s\n", c.desc.c_str());
  return 0;
}

// Writes the choices that a byte string decodes to, as a replay file.
static int cmd_convert(const std::string& prop, const std::string& in,
                       const std::string& out) {
  std::ifstream f(in, std::ios::binary);
  std::string bytes((std::istreambuf_iterator<char>(f)), {});
  Shared* sh = new_shared();
  auto checks = checks_of(prop);
  Failure r = in_child(sh, [&] {
    Src s(reinterpret_cast<const uint8_t*>(bytes.data()), bytes.size());
    return run_case(checks, s, sh, nullptr);
  });
  if (!r.failed) return 0;
  std::vector<uint64_t> ch(sh->choices, sh->choices + sh->n);
  for (int k = 0; k < 3; k++)
    if (!try_choices(checks, sh, ch).failed) return 0;
  Options o;
  o.prop = prop;
  o.replaydir = out;
  Failure last = r;
  ch = shrink(checks, sh, ch, &last);
  return report(o, "choices", last, ch, 0, 0);
}

// removes what is in the directory: plain files and, some levels down, folders
static void clean_dir(const std::string& dir, int levels) {
  DIR* d = opendir(dir.c_str());
  if (!d) return;
  while (dirent* e = readdir(d)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string p = dir + "/" + n;
    struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
      if (levels > 0) clean_dir(p, levels - 1);
      rmdir(p.c_str());
    } else {
      unlink(p.c_str());
    }
  }
  closedir(d);
}

void engine_scratch_for_fuzzing() {
  const char* base = getenv("TMPDIR");
  std::string tmpl = std::string(base && *base ? base : "/tmp") + "/fuzz.XXXXXX";
  if (mkdtemp(&tmpl[0])) scratch = tmpl;
}

int pbt_main(int argc, char** argv) {
  const char* base = getenv("TMPDIR");
  std::string tmpl = std::string(base && *base ? base : "/tmp") + "/pbt.XXXXXX";
  if (!mkdtemp(&tmpl[0])) {
    perror("mkdtemp");
    return 2;
  }
  scratch = tmpl;
  int rc = 2;
  std::string cmd = argc > 1 ? argv[1] : "";
  if (cmd == "replay" && argc > 2) {
    rc = cmd_replay(argv[2]);
  } else if (cmd == "convert" && argc > 4) {
    rc = cmd_convert(argv[2], argv[3], argv[4]);
  } else if (cmd == "cases" && argc > 2) {
    printf("%d\n", prop_infos()[argv[2]].quick_cases);
    rc = 0;
  } else if (cmd == "props") {
    for (auto& p : prop_infos()) printf("%s\n", p.first.c_str());
    rc = 0;
  } else if ((cmd == "run" || cmd == "show") && argc > 2) {
    Options o;
    o.prop = argv[2];
    uint64_t index = 0;
    for (int i = 3; i + 1 < argc; i += 2) {
      std::string k = argv[i], v = argv[i + 1];
      if (k == "--seed") o.seed = strtoull(v.c_str(), nullptr, 10);
      if (k == "--cases") o.cases = strtoull(v.c_str(), nullptr, 10);
      if (k == "--workers") o.workers = atoi(v.c_str());
      if (k == "--out") o.out = v;
      if (k == "--tier") o.tier = v;
      if (k == "--replaydir") o.replaydir = v;
      if (k == "--wall") o.wall = atof(v.c_str());
      if (k == "--index") index = strtoull(v.c_str(), nullptr, 10);
    }
    rc = cmd == "run" ? cmd_run(o) : cmd_show(o, index);
  } else {
    fprintf(stderr, "usage: pbt run PROP [--seed N --cases N --workers N --out F] | replay FILE\n");
  }
  clean_dir(scratch, 2);
  rmdir(scratch.c_str());
  return rc;
}
