#include "json_model.h"

#include <algorithm>
#include <cstdio>
#include <cstring>

#include "vsim.h"

namespace jm {
using vsim::Chance;
using vsim::Pick;

const char* const kKeys[] = {"a", "x", "b", "", "a b", "\xc3\xa9", "x\"y", "n\nl", "[0]", "xx"};
const int kNumKeys = sizeof(kKeys) / sizeof(kKeys[0]);

// ---- values -----------------------------------------------------------------
bool Equal(const Val& a, const Val& b) {
  if (a.kind != b.kind) return false;
  switch (a.kind) {
    case Val::kBool: return a.b == b.b;
    case Val::kNum: return a.num == b.num;
    case Val::kStr: return a.str == b.str;
    case Val::kArr:
      if (a.items.size() != b.items.size()) return false;
      for (size_t i = 0; i < a.items.size(); ++i) {
        if (!Equal(a.items[i], b.items[i])) return false;
      }
      return true;
    case Val::kObj:
      if (a.fields.size() != b.fields.size()) return false;
      for (size_t i = 0; i < a.fields.size(); ++i) {
        if (a.fields[i].first != b.fields[i].first || !Equal(a.fields[i].second, b.fields[i].second)) return false;
      }
      return true;
    default: return true;
  }
}

static std::string Esc(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c < 32 || c == 127 || c == '"' || c == '\\') {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    } else {
      r += (char)c;
    }
  }
  return r + "\"";
}
std::string Show(const Val& v) {
  switch (v.kind) {
    case Val::kNull: return "null";
    case Val::kBool: return v.b ? "true" : "false";
    case Val::kNum: return v.num;
    case Val::kStr: return Esc(v.str);
    case Val::kNan: return "NaN";
    case Val::kInf: return "Infinity";
    case Val::kNegInf: return "-Infinity";
    case Val::kArr: {
      std::string r = "[";
      for (auto& i : v.items) r += (r.size() > 1 ? "," : "") + Show(i);
      return r + "]";
    }
    case Val::kObj: {
      std::string r = "{";
      for (auto& f : v.fields) r += (r.size() > 1 ? "," : "") + Esc(f.first) + ":" + Show(f.second);
      return r + "}";
    }
  }
  return "?";
}
std::string Show(const std::vector<Val>& v) {
  std::string r;
  for (auto& x : v) r += (r.empty() ? "" : " | ") + Show(x);
  return r;
}

std::string NormNum(std::string_view s) {
  bool neg = false;
  size_t i = 0;
  if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
  std::string digits;
  int64_t exp = 0;
  bool frac = false;
  for (; i < s.size(); ++i) {
    if (s[i] == '.') {
      frac = true;
    } else if (s[i] >= '0' && s[i] <= '9') {
      digits += s[i];
      if (frac) --exp;
    } else {
      break;
    }
  }
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
    ++i;
    bool eneg = false;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) eneg = s[i++] == '-';
    int64_t e = 0;
    for (; i < s.size(); ++i) e = std::min<int64_t>(e * 10 + (s[i] - '0'), 1000000000);
    exp += eneg ? -e : e;
  }
  while (!digits.empty() && digits.back() == '0') {
    digits.pop_back();
    ++exp;
  }
  size_t z = 0;
  while (z < digits.size() && digits[z] == '0') ++z;
  digits = digits.substr(z);
  if (digits.empty()) return "0";
  return (neg ? "-" : "") + digits + "e" + std::to_string(exp);
}

// ---- parser -----------------------------------------------------------------
static void AppendUtf8(uint32_t c, std::string* s) {
  if (c < 0x80) {
    *s += (char)c;
  } else if (c < 0x800) {
    *s += (char)(0xc0 | (c >> 6));
    *s += (char)(0x80 | (c & 63));
  } else if (c < 0x10000) {
    *s += (char)(0xe0 | (c >> 12));
    *s += (char)(0x80 | ((c >> 6) & 63));
    *s += (char)(0x80 | (c & 63));
  } else {
    *s += (char)(0xf0 | (c >> 18));
    *s += (char)(0x80 | ((c >> 12) & 63));
    *s += (char)(0x80 | ((c >> 6) & 63));
    *s += (char)(0x80 | (c & 63));
  }
}
static size_t Utf8Len(std::string_view s, size_t i) {
  auto at = [&](size_t k) { return k < s.size() ? (unsigned char)s[k] : 0u; };
  auto cont = [&](size_t k) { return (at(k) & 0xc0) == 0x80; };
  unsigned c = at(i);
  if (c < 0x80) return 1;
  if (c >= 0xc2 && c < 0xe0) return cont(i + 1) ? 2 : 0;
  if (c >= 0xe0 && c < 0xf0) {
    if (!cont(i + 1) || !cont(i + 2)) return 0;
    if (c == 0xe0 && at(i + 1) < 0xa0) return 0;
    if (c == 0xed && at(i + 1) >= 0xa0) return 0;
    return 3;
  }
  if (c >= 0xf0 && c < 0xf5) {
    if (!cont(i + 1) || !cont(i + 2) || !cont(i + 3)) return 0;
    if (c == 0xf0 && at(i + 1) < 0x90) return 0;
    if (c == 0xf4 && at(i + 1) >= 0x90) return 0;
    return 4;
  }
  return 0;
}
bool IsUtf8(std::string_view s) {
  for (size_t i = 0; i < s.size();) {
    size_t n = Utf8Len(s, i);
    if (n == 0) return false;
    i += n;
  }
  return true;
}
bool IsAscii(std::string_view s) {
  for (unsigned char c : s) {
    if (c >= 128) return false;
  }
  return true;
}

namespace {
struct Parser {
  std::string_view s;
  bool allow_nan;
  size_t i = 0;
  std::string err;
  bool Fail(const std::string& m) {
    if (err.empty()) err = m + " at " + std::to_string(i);
    return false;
  }
  static bool Ws(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
  void Skip() {
    while (i < s.size() && Ws(s[i])) ++i;
  }
  bool Lit(std::string_view w) {
    if (s.substr(i, w.size()) != w) return false;
    i += w.size();
    return true;
  }
  bool Hex4(uint32_t* v) {
    *v = 0;
    for (int k = 0; k < 4; ++k, ++i) {
      char c = i < s.size() ? s[i] : 0;
      int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
      if (d < 0) return Fail("bad \\u escape");
      *v = *v * 16 + d;
    }
    return true;
  }
  bool Str(std::string* out) {
    ++i;
    for (;;) {
      if (i >= s.size()) return Fail("unterminated string");
      unsigned char c = s[i];
      if (c == '"') {
        ++i;
        return true;
      }
      if (c < 32) return Fail("control character in a string");
      if (c == '\\') {
        ++i;
        char e = i < s.size() ? s[i] : 0;
        ++i;
        switch (e) {
          case '"': case '\\': case '/': *out += e; break;
          case 'b': *out += '\b'; break;
          case 'f': *out += '\f'; break;
          case 'n': *out += '\n'; break;
          case 'r': *out += '\r'; break;
          case 't': *out += '\t'; break;
          case 'u': {
            uint32_t v;
            if (!Hex4(&v)) return false;
            if (v >= 0xdc00 && v < 0xe000) return Fail("lone surrogate");
            if (v >= 0xd800 && v < 0xdc00) {
              if (!Lit("\\u")) return Fail("lone surrogate");
              uint32_t w;
              if (!Hex4(&w)) return false;
              if (w < 0xdc00 || w >= 0xe000) return Fail("lone surrogate");
              v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
            }
            AppendUtf8(v, out);
            break;
          }
          default: --i; return Fail("bad escape");
        }
        continue;
      }
      size_t n = Utf8Len(s, i);
      if (n == 0) return Fail("bad UTF-8");
      out->append(s.substr(i, n));
      i += n;
    }
  }
  bool Num(Val* v) {
    size_t b = i;
    if (i < s.size() && s[i] == '-') ++i;
    auto dig = [&] { return i < s.size() && s[i] >= '0' && s[i] <= '9'; };
    if (!dig()) return Fail("bad value");
    if (s[i] == '0') {
      ++i;
    } else {
      while (dig()) ++i;
    }
    if (i < s.size() && s[i] == '.') {
      ++i;
      if (!dig()) return Fail("bad fraction");
      while (dig()) ++i;
    }
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
      ++i;
      if (i < s.size() && (s[i] == '-' || s[i] == '+')) ++i;
      if (!dig()) return Fail("bad exponent");
      while (dig()) ++i;
    }
    v->kind = Val::kNum;
    v->num = NormNum(s.substr(b, i - b));
    return true;
  }
  bool Value(Val* v) {
    size_t b = i;
    bool ok = Value1(v);
    v->raw = std::string(s.substr(b, i - b));
    return ok;
  }
  bool Value1(Val* v) {
    if (i >= s.size()) return Fail("value expected");
    char c = s[i];
    if (c == '"') {
      v->kind = Val::kStr;
      return Str(&v->str);
    }
    if (c == '[') {
      v->kind = Val::kArr;
      ++i;
      Skip();
      if (Lit("]")) return true;
      for (;;) {
        v->items.emplace_back();
        if (!Value(&v->items.back())) return false;
        Skip();
        if (Lit("]")) return true;
        if (!Lit(",")) return Fail("',' or ']' expected");
        Skip();
      }
    }
    if (c == '{') {
      v->kind = Val::kObj;
      ++i;
      Skip();
      if (Lit("}")) return true;
      for (;;) {
        if (i >= s.size() || s[i] != '"') return Fail("key expected");
        v->fields.emplace_back();
        size_t b = i;
        if (!Str(&v->fields.back().first)) return false;
        v->raw_keys.push_back(std::string(s.substr(b, i - b)));
        Skip();
        if (!Lit(":")) return Fail("':' expected");
        Skip();
        if (!Value(&v->fields.back().second)) return false;
        Skip();
        if (Lit("}")) return true;
        if (!Lit(",")) return Fail("',' or '}' expected");
        Skip();
      }
    }
    if (Lit("true")) { v->kind = Val::kBool; v->b = true; return true; }
    if (Lit("false")) { v->kind = Val::kBool; return true; }
    if (Lit("null")) return true;
    if (allow_nan) {
      if (Lit("NaN")) { v->kind = Val::kNan; return true; }
      if (Lit("Infinity")) { v->kind = Val::kInf; return true; }
      if (Lit("-Infinity")) { v->kind = Val::kNegInf; return true; }
    }
    return Num(v);
  }
};
}  // namespace

static bool ParseAll(std::string_view text, bool allow_nan, std::vector<Val>* out, std::string* error, bool newline) {
  Parser p{text, allow_nan};
  for (bool first = true;; first = false) {
    size_t b = p.i;
    p.Skip();
    if (p.i >= text.size()) return true;
    if (!first && p.i == b) {
      *error = "values are not separated at " + std::to_string(b);
      return false;
    }
    if (!first && newline && text.substr(b, p.i - b).find('\n') == text.npos) {
      *error = "no newline between values at " + std::to_string(b);
      return false;
    }
    out->emplace_back();
    if (!p.Value(&out->back())) {
      *error = p.err;
      return false;
    }
  }
}
bool Parse(std::string_view text, bool allow_nan, std::vector<Val>* out, std::string* error) {
  return ParseAll(text, allow_nan, out, error, false);
}
bool NewlineSeparated(std::string_view text, bool allow_nan) {
  std::vector<Val> v;
  std::string e;
  return ParseAll(text, allow_nan, &v, &e, true);
}
static void PrettyTo(const Val& v, const std::string& indent, int depth, std::string* out) {
  auto nl = [&](int d) {
    *out += '\n';
    for (int i = 0; i < d; ++i) *out += indent;
  };
  if (v.kind == Val::kArr && !v.items.empty()) {
    *out += '[';
    for (size_t i = 0; i < v.items.size(); ++i) {
      if (i) *out += ',';
      nl(depth + 1);
      PrettyTo(v.items[i], indent, depth + 1, out);
    }
    nl(depth);
    *out += ']';
  } else if (v.kind == Val::kObj && !v.fields.empty()) {
    *out += '{';
    for (size_t i = 0; i < v.fields.size(); ++i) {
      if (i) *out += ',';
      nl(depth + 1);
      *out += v.raw_keys[i] + ": ";
      PrettyTo(v.fields[i].second, indent, depth + 1, out);
    }
    nl(depth);
    *out += '}';
  } else if (v.kind == Val::kArr) {
    *out += "[]";
  } else if (v.kind == Val::kObj) {
    *out += "{}";
  } else {
    *out += v.raw;
  }
}
std::string Pretty(const Val& v, const std::string& indent) {
  std::string out;
  PrettyTo(v, indent, 0, &out);
  return out;
}
bool HasNoWhitespace(std::string_view s) {
  bool str = false;
  for (size_t i = 0; i < s.size(); ++i) {
    if (str) {
      if (s[i] == '\\') ++i;
      else if (s[i] == '"') str = false;
    } else if (s[i] == '"') {
      str = true;
    } else if (Parser::Ws(s[i])) {
      return false;
    }
  }
  return true;
}

bool UnneededEscapes(std::string_view s) {
  for (size_t i = 0; i + 1 < s.size(); ++i) {
    if (s[i] != '\\') continue;
    ++i;
    if (s[i] == '/') return true;
    if (s[i] == 'u') {
      unsigned v = 0;
      for (int k = 1; k <= 4 && i + k < s.size(); ++k) v = v * 16 + (isdigit((unsigned char)s[i + k]) ? s[i + k] - '0' : (s[i + k] | 32) - 'a' + 10);
      if (v >= 32 && v != '"' && v != '\\') return true;
    }
  }
  return false;
}

// ---- generators -------------------------------------------------------------
namespace {
uint32_t GenChar() {
  switch (Pick(12)) {
    case 0: return 'a' + Pick(3);
    case 1: return ' ';
    case 2: return '0' + Pick(10);
    case 3: { static const char p[] = "\"\\/'`,:[]{}()#*_-+.eEnulLtxub0"; return p[Pick(sizeof p - 1)]; }
    case 4: return '"';
    case 5: return '\\';
    case 6: { static const char p[] = "\n\r\t\b\f\a\v"; return p[Pick(7)]; }
    case 7: return Pick(32);
    case 8: return 0x7f + Pick(3);
    case 9: { static const uint32_t p[] = {0xe9, 0x7ff, 0x800, 0x2028, 0x2029, 0xfeff, 0xfffd, 0xffff, 0xd7ff, 0xe000, 0x3042, 0xa0}; return p[Pick(12)]; }
    case 10: { static const uint32_t p[] = {0x10000, 0x1f680, 0x10ffff, 0x1d11e}; return p[Pick(4)]; }
    default: return 'a' + Pick(26);
  }
}
bool Lone(uint32_t c) { return c >= 0xd800 && c < 0xe000; }
std::vector<uint32_t> GenChars(int max, bool lone = false) {
  std::vector<uint32_t> r;
  int n = Chance(1, 12) ? Pick(3 * max + 1) : Pick(max + 1);
  for (int i = 0; i < n; ++i) {
    uint32_t c = GenChar();
    if (lone && Chance(1, 20)) {
      c = (Chance(1, 2) ? 0xd83d : 0xde00) + Pick(2);
      if (!r.empty() && Lone(r.back()) && c >= 0xdc00) c = 0xd83d;
    }
    r.push_back(c);
  }
  return r;
}
std::string ToUtf8(const std::vector<uint32_t>& v) {
  std::string s;
  for (uint32_t c : v) AppendUtf8(Lone(c) ? 0xfffd : c, &s);
  return s;
}
std::vector<uint32_t> FromUtf8(std::string_view s) {
  std::vector<uint32_t> r;
  for (size_t i = 0; i < s.size();) {
    size_t n = Utf8Len(s, i);
    unsigned c = (unsigned char)s[i];
    uint32_t v = n == 1 ? c : n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7;
    for (size_t k = 1; k < n; ++k) v = v << 6 | ((unsigned char)s[i + k] & 63);
    r.push_back(v);
    i += n;
  }
  return r;
}
void U4(uint32_t v, std::string* out) {
  char b[8];
  snprintf(b, sizeof b, Chance(1, 2) ? "\\u%04X" : "\\u%04x", v);
  *out += b;
}
const char* Named(uint32_t c) {
  switch (c) {
    case '"': return "\\\"";
    case '\\': return "\\\\";
    case '/': return "\\/";
    case '\b': return "\\b";
    case '\f': return "\\f";
    case '\n': return "\\n";
    case '\r': return "\\r";
    case '\t': return "\\t";
  }
  return nullptr;
}
void JsonString(const std::vector<uint32_t>& s, std::string* out) {
  *out += '"';
  for (uint32_t c : s) {
    bool must = c < 32 || c == '"' || c == '\\' || Lone(c);
    const char* named = Named(c);
    if (!must && !Chance(1, 6)) {
      AppendUtf8(c, out);
    } else if (named && !Chance(1, 4)) {
      *out += named;
    } else if (c >= 0x10000) {
      U4(0xd800 + ((c - 0x10000) >> 10), out);
      U4(0xdc00 + ((c - 0x10000) & 0x3ff), out);
    } else {
      U4(c, out);
    }
  }
  *out += '"';
}
void Ws(std::string* out) {
  if (!Chance(1, 4)) return;
  int n = 1 + Pick(2);
  for (int i = 0; i < n; ++i) *out += " \n\t\r"[Pick(4)];
}
std::string JsonNumber() {
  std::string s;
  if (Chance(1, 3)) s += '-';
  switch (Pick(4)) {
    case 0: s += '0'; break;
    case 1: s += std::to_string(Pick(1000)); break;
    case 2: s += "123456789012345678901234567890"; break;
    default: s += std::to_string(1 + Pick(9)); break;
  }
  if (Chance(1, 4)) s += "." + std::string(Pick(3), '0') + std::to_string(Pick(100));
  if (Chance(1, 4)) {
    s += Chance(1, 2) ? 'e' : 'E';
    static const char* sg[] = {"", "+", "-"};
    s += sg[Pick(3)];
    s += std::string(Pick(2), '0') + std::to_string(Pick(400));
  }
  return s;
}

// ---- variant syntax ---------------------------------------------------------
// Whitespace and comments between tokens.
void VWs(std::string* out) {
  if (!Chance(1, 3)) return;
  int n = 1 + Pick(2);
  for (int i = 0; i < n; ++i) {
    switch (Pick(9)) {
      case 0: *out += " "; break;
      case 1: *out += "\n"; break;
      case 2: { static const char* p[] = {"\t", "\r", "\v", "\f", "\xc2\xa0", "\xef\xbb\xbf", "\xe2\x80\xa8", "\xe2\x80\xa9", "\xe3\x80\x80"}; *out += p[Pick(9)]; break; }
      case 3: { static const char* p[] = {"#", "# it's \"c\" */ [", "#}\\"}; *out += p[Pick(3)]; *out += Chance(1, 3) ? "\r\n" : "\n"; break; }
      case 4: { static const char* p[] = {"//", "// 'x' {", "/// /*"}; *out += p[Pick(3)]; static const char* e[] = {"\n", "\r", "\r\n", "\xe2\x80\xa8", "\xe2\x80\xa9"}; *out += e[Pick(5)]; break; }
      case 5: { static const char* p[] = {"/**/", "/* c */", "/* a * b */", "/*\n\"x\"\n*/"}; *out += p[Pick(4)]; break; }
      case 6: { static const char* p[] = {"/***/", "/** doc **/", "/*/ */", "/* **x** ***/", "/*//*/"}; *out += p[Pick(5)]; break; }
      default: *out += " "; break;
    }
  }
}
// One character of a string delimited by `q` (tripled if `triple`).
void VChar(uint32_t c, uint32_t next, bool has_next, char q, bool triple, std::string* out) {
  char b[16];
  // Whether a hexadecimal or octal digit follows.
  bool digit = has_next && next < 128 && (isxdigit((int)next) || isdigit((int)next));
  bool linebreak = c == '\n' || c == '\r' || c == 0x2028 || c == 0x2029;
  bool must = c == '\\' || c == (uint32_t)q || (linebreak && !triple) || c < 32 || Lone(c);
  if (triple && c == '\n') must = false;
  if (!must && !Chance(1, 5)) {
    AppendUtf8(c, out);
    return;
  }
  switch (Pick(8)) {
    case 0:
      if (const char* n = Named(c)) { *out += n; return; }
      break;
    case 1:
      if (c == '\a') { *out += "\\a"; return; }
      if (c == '\v') { *out += "\\v"; return; }
      if (c == '\'') { *out += "\\'"; return; }
      break;
    case 2:
      if (c < 0x100) { snprintf(b, sizeof b, "\\x%02x", c); *out += b; return; }
      break;
    case 3:
      if (c < 0x200 && !digit) { snprintf(b, sizeof b, "\\%o", c); *out += b; return; }
      if (c < 0x200) { snprintf(b, sizeof b, "\\%03o", c); *out += b; return; }
      break;
    case 4:
      snprintf(b, sizeof b, Chance(1, 2) ? "\\U%08x" : "\\U%08X", c);
      *out += b;
      return;
    case 5:
      snprintf(b, sizeof b, Chance(1, 3) ? "\\u{%06x}" : "\\u{%x}", c);
      *out += b;
      return;
    default:
      break;
  }
  if (const char* n = Named(c); n && Chance(1, 2)) {
    *out += n;
    return;
  }
  if (c >= 0x10000) {
    U4(0xd800 + ((c - 0x10000) >> 10), out);
    U4(0xdc00 + ((c - 0x10000) & 0x3ff), out);
  } else {
    U4(c, out);
  }
}
void VString(const std::vector<uint32_t>& s, bool prefix, std::string* out) {
  int kind = Pick(6);
  if (prefix && Chance(1, 8)) *out += Chance(1, 2) ? 'u' : 'b';
  char q = kind == 1 || kind == 3 ? '\'' : '"';
  bool triple = kind == 2 || kind == 3;
  std::string d(triple ? 3 : 1, q);
  *out += d;
  for (size_t i = 0; i < s.size(); ++i) {
    if (Chance(1, 20)) {  // an escaped line break adds nothing
      static const char* e[] = {"\\\n", "\\\r\n", "\\\xe2\x80\xa8", "\\\xe2\x80\xa9", "\\\r"};
      *out += e[Pick(s[i] != '\n' ? 5 : 4)];
    }
    bool has_next = i + 1 < s.size();
    if (triple && s[i] == (uint32_t)q) {
      // One or two raw quotes may stand inside, but not before the end.
      bool prev = i > 0 && s[i - 1] == (uint32_t)q;
      bool safe = has_next && s[i + 1] != (uint32_t)q && !prev && i > 0;
      if (safe && Chance(1, 2)) {
        *out += q;
        continue;
      }
    }
    VChar(s[i], has_next ? s[i + 1] : 0, has_next, q, triple, out);
  }
  *out += d;
}
Val VNumber(std::string* out) {
  Val v;
  v.kind = Val::kNum;
  std::string sign;
  int sg = Pick(6);
  if (sg == 0) sign = "-";
  if (sg == 1) sign = "+";
  static const uint64_t big[] = {0, 1, 255, 0x7fffffffffffffffull, 0xffffffffffffffffull, 0x123456789abcdefull};
  uint64_t n = Chance(1, 2) ? Pick(300) : big[Pick(6)];
  auto underscore = [](std::string s) {
    if (s.size() > 1 && Chance(1, 3)) s.insert(1 + Pick(s.size() - 1), "_");
    return s;
  };
  std::string t;
  char b[80];
  switch (Pick(6)) {
    case 0:
      snprintf(b, sizeof b, Chance(1, 2) ? "%llx" : "%llX", (unsigned long long)n);
      t = (Chance(1, 3) ? "0X" : "0x") + underscore(b);
      v.num = NormNum(sign + std::to_string(n));
      break;
    case 1:
      snprintf(b, sizeof b, "%llo", (unsigned long long)n);
      t = (Chance(1, 3) ? "0O" : "0o") + underscore(b);
      v.num = NormNum(sign + std::to_string(n));
      break;
    case 2: {
      std::string bits;
      for (uint64_t m = n; m; m >>= 1) bits = char('0' + (m & 1)) + bits;
      if (bits.empty()) bits = "0";
      t = (Chance(1, 3) ? "0B" : "0b") + underscore(bits);
      v.num = NormNum(sign + std::to_string(n));
      break;
    }
    case 3: {  // leading or trailing decimal point
      std::string d = std::to_string(n);
      t = Chance(1, 2) ? "." + d : d + ".";
      if (Chance(1, 3)) t += "e" + std::to_string(Pick(20));
      v.num = NormNum(sign + t);
      break;
    }
    default: {
      std::string d = std::to_string(n);
      std::string f = Chance(1, 4) ? "." + std::to_string(Pick(1000)) : "";
      std::string e = Chance(1, 4) ? (Chance(1, 2) ? "e-" : "E+") + std::to_string(Pick(30)) : "";
      v.num = NormNum(sign + d + f + e);
      t = underscore(d) + f + e;
      if (f.empty() && e.empty() && Chance(1, 4)) t += "nlL"[Pick(3)];
      break;
    }
  }
  *out += sign + t;
  return v;
}
bool PlainKey(const std::string& k) {
  if (k.empty() || !(isalpha((unsigned char)k[0]) || k[0] == '_' || k[0] == '$')) return false;
  for (unsigned char c : k) {
    if (!isalnum(c) && c != '_' && c != '$') return false;
  }
  return true;
}

void Key(const GenOptions& o, std::string* value, std::string* out) {
  std::vector<uint32_t> k;
  if (o.plain_keys) {
    *value = kKeys[Pick(3)];
    *out += '"' + *value + '"';
    return;
  }
  if (Chance(3, 4)) {
    *value = kKeys[Pick(kNumKeys)];
    k = FromUtf8(*value);
  } else {
    k = GenChars(4);
    *value = ToUtf8(k);
  }
  if (!o.variant) {
    JsonString(k, out);
    return;
  }
  if (Chance(1, 8)) {
    static const char* p[] = {"true", "null", "NaN", "_", "$x", "e5", "None", "u", "b"};
    *value = p[Pick(9)];
  }
  if (PlainKey(*value) && Chance(1, 2)) {
    // A plain key ends at whitespace or at the colon.
    *out += *value;
    if (Chance(1, 3)) *out += ' ';
    return;
  }
  VString(FromUtf8(*value), true, out);
  VWs(out);
}
}  // namespace

Val GenValue(const GenOptions& o, int depth, std::string* out) {
  Val v;
  int kind = o.containers && depth == o.max_depth ? 6 + Pick(3) : Pick(depth > 0 ? 9 : 6);
  switch (kind) {
    case 0:
      if (o.variant) {
        v = VNumber(out);
        return v;
      } else {
        std::string n = JsonNumber();
        *out += n;
        v.kind = Val::kNum;
        v.num = NormNum(n);
        return v;
      }
    case 1:
    case 2: {
      auto s = GenChars(6, o.lone_surrogates);
      v.kind = Val::kStr;
      v.str = ToUtf8(s);
      if (o.variant) VString(s, true, out);
      else JsonString(s, out);
      return v;
    }
    case 3: {
      v.kind = Val::kBool;
      v.b = Chance(1, 2);
      if (o.variant && Chance(1, 2)) *out += v.b ? "True" : "False";
      else *out += v.b ? "true" : "false";
      return v;
    }
    case 4:
      *out += o.variant && Chance(1, 2) ? "None" : "null";
      return v;
    case 5:
      v.kind = Chance(1, 2) ? Val::kArr : Val::kObj;
      if (v.kind == Val::kArr) {
        *out += '[';
        if (Chance(1, 3)) Ws(out);
        *out += ']';
      } else {
        *out += '{';
        if (Chance(1, 3)) Ws(out);
        *out += '}';
      }
      return v;
    case 6:
    case 7: {
      v.kind = Val::kArr;
      bool tuple = o.variant && Chance(1, 4);
      int n = Pick(o.max_items + 1);
      *out += tuple ? '(' : '[';
      auto ws = [&] { o.variant ? VWs(out) : Ws(out); };
      ws();
      for (int i = 0; i < n; ++i) {
        v.items.push_back(GenValue(o, depth - 1, out));
        ws();
        if (i + 1 < n || (o.variant && Chance(1, 4))) {
          *out += ',';
          ws();
        }
      }
      *out += tuple ? ')' : ']';
      return v;
    }
    default: {
      v.kind = Val::kObj;
      int n = Pick(o.max_items + 1);
      *out += '{';
      auto ws = [&] { o.variant ? VWs(out) : Ws(out); };
      ws();
      for (int i = 0; i < n; ++i) {
        std::string k;
        Key(o, &k, out);
        if (!o.variant) ws();
        *out += ':';
        ws();
        v.fields.push_back({k, GenValue(o, depth - 1, out)});
        ws();
        if (i + 1 < n || (o.variant && Chance(1, 4))) {
          *out += ',';
          ws();
        }
      }
      *out += '}';
      return v;
    }
  }
}

std::vector<Val> GenValues(const GenOptions& o, int max_values, std::string* text) {
  std::vector<Val> r;
  int n = Pick(max_values + 1);
  Ws(text);
  for (int i = 0; i < n; ++i) {
    r.push_back(GenValue(o, Chance(1, 3) ? 0 : o.max_depth, text));
    if (i + 1 < n || Chance(1, 2)) {
      *text += Chance(1, 2) ? '\n' : ' ';
      if (o.variant) VWs(text);
      else Ws(text);
    }
  }
  return r;
}

std::string GenText(int max_chars) { return ToUtf8(GenChars(max_chars)); }

std::string GenSoup(int max_pieces, bool valid_utf8) {
  static const char* pieces[] = {
      "{", "}", "[", "]", "(", ")", ",", ":", "\"", "'", "`", "``", "```", "\"\"\"", "'''", "\\", "\\u", "\\ud83d", "\\ude00",
      "\\x4", "\\7", "\\u{", "\\U0001", "\\n", "\\q", "/", "//", "/*", "*/", "#", "\n", " ", "\r", "-", "+", ".", "0", "0x", "0b1",
      "1", "12", "e", "e5", "1e", "_", "n", "nul", "null", "true", "tru", "NaN", "-Infinity", "+nan", "Inf", "u\"", "b'", "a", "key",
      "\"a\":", "{a:", "\"str\"", "[1,2]", "\t", "\xc3\xa9", "\xf0\x9f\x9a\x80", "\x01", "\x7f", "None", "json", "\xe2\x80\xa8", "0o7", "l", "\xe2\x80\xa9", "[[[[", "{[{"};
  std::string s;
  int n = Pick(max_pieces + 1);
  for (int i = 0; i < n; ++i) {
    if (Chance(1, 10)) {
      GenOptions o;
      o.variant = Chance(1, 2);
      GenValue(o, 2, &s);
    } else if (Chance(1, 16)) {
      AppendUtf8(GenChar(), &s);
    } else if (!valid_utf8 && Chance(1, 12)) {
      static const unsigned char bad[] = {0x80, 0xbf, 0xc0, 0xc3, 0xe2, 0xed, 0xf0, 0xf4, 0xf5, 0xff, 0xa0, 0x00};
      s += (char)bad[Pick(12)];
    } else {
      s += pieces[Pick(sizeof(pieces) / sizeof(pieces[0]))];
    }
  }
  if (Chance(1, 5) && !s.empty()) {  // a truncated value
    std::string t;
    GenOptions o;
    o.variant = Chance(1, 2);
    GenValue(o, 3, &t);
    size_t n = Pick(t.size() + 1);
    if (valid_utf8) {
      while (n < t.size() && ((unsigned char)t[n] & 0xc0) == 0x80) ++n;
    }
    s += t.substr(0, n);
  }
  return s;
}

std::vector<std::string> Split(const std::string& text, bool utf8) {
  std::vector<std::string> r;
  int mode = Pick(4);
  if (mode == 0) {
    r.push_back(text);
    return r;
  }
  size_t i = 0;
  while (i < text.size()) {
    size_t n = mode == 1 ? 1 : mode == 2 ? 1 + Pick(4) : 1 + Pick(std::min<size_t>(text.size(), 40));
    size_t j = std::min(text.size(), i + n);
    if (utf8) {
      while (j < text.size() && ((unsigned char)text[j] & 0xc0) == 0x80) ++j;
    }
    r.push_back(text.substr(i, j - i));
    i = j;
    if (Chance(1, 30)) r.push_back("");
  }
  return r;
}

}  // namespace jm
