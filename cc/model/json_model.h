// A reference model of JSON values: a strict parser, equality by value, and
// generators of texts whose value is known. Not instrumented.
#ifndef JSON_MODEL_H_
#define JSON_MODEL_H_
#include <cstdint>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace jm {

struct Val {
  enum Kind { kNull, kBool, kNum, kStr, kArr, kObj, kNan, kInf, kNegInf };
  Kind kind = kNull;
  bool b = false;
  std::string num;  // normalised: sign, digits without outer zeros, exponent
  std::string str;  // UTF-8
  std::vector<Val> items;
  std::vector<std::pair<std::string, Val>> fields;
  // When parsed: the literal text (for containers, of the whole value), and
  // the literals of the keys.
  std::string raw;
  std::vector<std::string> raw_keys;
};

bool Equal(const Val& a, const Val& b);
std::string Show(const Val& v);
std::string Show(const std::vector<Val>& v);
// Strictly parses whitespace-separated JSON values. Lone surrogate escapes are
// errors unless `surrogates`.
bool Parse(std::string_view text, bool allow_nan, std::vector<Val>* out, std::string* error);
// True if every two values are separated by a newline.
bool NewlineSeparated(std::string_view text, bool allow_nan);
bool IsUtf8(std::string_view s);
bool IsAscii(std::string_view s);
// The normal form of a decimal literal.
std::string NormNum(std::string_view literal);
// json.dumps(indent=indent), with the literals of `v` as they were parsed.
std::string Pretty(const Val& v, const std::string& indent);
// The text without whitespace outside of strings.
bool HasNoWhitespace(std::string_view text);

// True if a character of the string literal is escaped without need.
bool UnneededEscapes(std::string_view literal);

// ---- generators -------------------------------------------------------------
struct GenOptions {
  int max_depth = 3;
  int max_items = 3;
  bool variant = false;  // the syntax that `salvage` tolerates
  bool plain_keys = false;  // keys without escapes, from a small pool
  bool lone_surrogates = false;  // some, which stand for U+FFFD
  bool containers = false;  // prefer containers at the top level
};
// An arbitrary value, with the text appended to `out`.
Val GenValue(const GenOptions& o, int depth, std::string* out);
// Whitespace-separated values; `keys`: object keys are mostly from this pool.
std::vector<Val> GenValues(const GenOptions& o, int max_values, std::string* text);
// An arbitrary text, mostly made of JSON-like fragments, not valid JSON.
std::string GenSoup(int max_pieces, bool valid_utf8);
// UTF-8 text of arbitrary characters.
std::string GenText(int max_chars);

// Splits the text into chunks, at code point boundaries if `utf8`.
std::vector<std::string> Split(const std::string& text, bool utf8);

extern const char* const kKeys[];
extern const int kNumKeys;
}  // namespace jm
#endif
