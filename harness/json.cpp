#include "json.h"

#include <stdio.h>

#include <algorithm>

#include "engine.h"
#include "text.h"

static const J null_value;
const J& J::operator[](const std::string& k) const {
  for (auto& p : o)
    if (p.first == k) return p.second;
  return null_value;
}
J& J::set(const std::string& k, J v) {
  for (auto& p : o)
    if (p.first == k) {
      p.second = std::move(v);
      return *this;
    }
  o.push_back({k, std::move(v)});
  return *this;
}
static void put_string(const std::string& s, Src* src, std::string& out) {
  char buf[16];
  out += '"';
  int style = src ? src->range(0, 3) : 0;  // 0 plain, 3 escapes everything
  for (char32_t c : utf8_decode(s)) {
    bool esc = c < 0x20 || c == '"' || c == '\\';
    bool extra = style == 3 || (style > 0 && src->chance(1, 4));
    if (!esc && !extra) {
      utf8_append(out, c);
      continue;
    }
    const char* shorts = nullptr;
    switch (c) {
      case '"': shorts = "\\\""; break;
      case '\\': shorts = "\\\\"; break;
      case '/': shorts = "\\/"; break;
      case '\b': shorts = "\\b"; break;
      case '\f': shorts = "\\f"; break;
      case '\n': shorts = "\\n"; break;
      case '\r': shorts = "\\r"; break;
      case '\t': shorts = "\\t"; break;
    }
    if (shorts && !(style > 0 && src->coin())) {
      out += shorts;
    } else if (c >= 0x10000) {
      snprintf(buf, sizeof buf, style == 2 ? "\\u%04x\\u%04X" : "\\u%04X\\u%04x",
               0xd800 + ((c - 0x10000) >> 10), 0xdc00 + ((c - 0x10000) & 0x3ff));
      out += buf;
    } else {
      snprintf(buf, sizeof buf, style == 2 ? "\\u%04X" : "\\u%04x", (unsigned)c);
      out += buf;
    }
  }
  out += '"';
}
static void ws(Src* src, std::string& out) {
  if (!src || !src->chance(1, 5)) return;
  int n = src->range(0, 3);
  for (int i = 0; i < n; i++) out += " \n\t\r"[src->draw(4)];
}
static void put(const J& j, Src* src, std::string& out, bool plain_keys = false) {
  char buf[64];
  switch (j.kind) {
    case J::NUL: out += "null"; break;
    case J::BOOL: out += j.b ? "true" : "false"; break;
    case J::INT: out += std::to_string(j.i); break;
    case J::DBL:
      snprintf(buf, sizeof buf, "%.6f", j.d);
      out += buf;
      break;
    case J::STR: put_string(j.s, src, out); break;
    case J::ARR: {
      out += '[';
      ws(src, out);
      bool first = true;
      for (auto& e : j.a) {
        if (!first) out += ',';
        ws(src, out);
        first = false;
        put(e, src, out);
        ws(src, out);
      }
      out += ']';
      break;
    }
    case J::OBJ: {
      std::vector<int> order(j.o.size());
      for (size_t i = 0; i < order.size(); i++) order[i] = i;
      if (src) src->shuffle(order);
      out += '{';
      ws(src, out);
      bool first = true;
      for (int i : order) {
        if (!first) out += ',';
        ws(src, out);
        first = false;
        put_string(j.o[i].first, plain_keys ? nullptr : src, out);
        ws(src, out);
        out += ':';
        ws(src, out);
        put(j.o[i].second, src, out);
        ws(src, out);
      }
      out += '}';
      break;
    }
  }
}
std::string dump(const J& j) {
  std::string r;
  put(j, nullptr, r);
  return r;
}
std::string dump_random(const J& j, Src& s, bool plain_keys) {
  std::string r;
  ws(&s, r);
  put(j, &s, r, plain_keys);
  ws(&s, r);
  return r;
}
