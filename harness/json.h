// JSON values for configurations, written plainly or in a random equivalent way.
#pragma once
#include <string>
#include <utility>
#include <vector>

class Src;
struct J {
  enum Kind { NUL, BOOL, INT, DBL, STR, ARR, OBJ } kind = NUL;
  bool b = false;
  long long i = 0;
  double d = 0;
  std::string s;  // UTF-8
  std::vector<J> a;
  std::vector<std::pair<std::string, J>> o;
  J() {}
  J(bool v) : kind(BOOL), b(v) {}
  J(int v) : kind(INT), i(v) {}
  J(double v) : kind(DBL), d(v) {}
  J(const char* v) : kind(STR), s(v) {}
  J(const std::string& v) : kind(STR), s(v) {}
  static J arr(std::vector<J> v = {}) {
    J j;
    j.kind = ARR;
    j.a = std::move(v);
    return j;
  }
  static J obj(std::vector<std::pair<std::string, J>> v = {}) {
    J j;
    j.kind = OBJ;
    j.o = std::move(v);
    return j;
  }
  bool null() const { return kind == NUL; }
  const J& operator[](const std::string& k) const;
  J& set(const std::string& k, J v);
  std::string str(const std::string& dflt = "") const { return kind == STR ? s : dflt; }
  int num(int dflt = 0) const { return kind == INT ? static_cast<int>(i) : dflt; }
  bool flag(bool dflt = false) const { return kind == BOOL ? b : dflt; }
};
std::string dump(const J& j);
// Another text of the same JSON value: white space, key order, escapes.
// plain_keys: the keys of the outermost object are not escaped.
std::string dump_random(const J& j, Src& s, bool plain_keys = false);
