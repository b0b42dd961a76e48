// JSON stream operators: chunking, faults, values, and what `salvage` makes of
// arbitrary text.
#include <algorithm>

#include "common.h"
#include "json_model.h"
#include "koladata/functor/parallel/stream_filter_json.h"
#include "koladata/operators/json_stream.h"
#include "pipeline.h"

namespace sim {
namespace {

using koladata::DataSlice;
using koladata::internal::DataItem;

enum JOp {
  kSalvage, kPrettify, kHead, kObjects, kArrays, kNonnull, kKeyValue, kKeyValues, kImplode,
  kExplode, kNth, kUnquote, kQuote, kChunkValues, kFilter, kStringValue, kNumJOps
};
const char* const kJOps[] = {
    "salvage", "prettify", "head", "select_nonempty_objects", "select_nonempty_arrays", "select_nonnull",
    "get_object_key_value", "get_object_key_values", "implode_array", "explode_array", "get_array_nth_value",
    "unquote", "quote", "chunk_values", "filter_json", "stream_string_value"};

struct JSpec {
  JOp op;
  bool allow_nan = false, ensure_ascii = false;
  int64_t max_depth = 100;
  std::string indent = "  ";
  int64_t n = 0;
  std::string key;
  std::string path;
  std::string Show() const {
    std::string r = kJOps[op];
    if (op == kSalvage) r += "(nan=" + std::to_string(allow_nan) + " ascii=" + std::to_string(ensure_ascii) + " depth=" + std::to_string(max_depth) + ")";
    if (op == kHead || op == kNth) r += "(" + std::to_string(n) + ")";
    if (op == kKeyValue || op == kKeyValues) r += "('" + key + "')";
    if (op == kFilter || op == kStringValue) r += "(" + path + ")";
    return r;
  }
};

DataSlice StrItem(const std::string& s) { return DataSlice::CreatePrimitive(arolla::Text(s)); }

absl::StatusOr<StreamPtr> StartOp(const JSpec& s, const ExecutorPtr& ex, StreamPtr in) {
  using namespace koladata::ops;  // NOLINT
  auto b = [](bool v) { return DataSlice::CreatePrimitive(v); };
  auto i = [](int64_t v) { return DataSlice::CreatePrimitive(v); };
  switch (s.op) {
    case kSalvage: return JsonStreamSalvageStream(ex, in, b(s.allow_nan), b(s.ensure_ascii), i(s.max_depth));
    case kPrettify: return JsonStreamPrettifyStream(ex, in, StrItem(s.indent));
    case kHead: return JsonStreamHeadStream(ex, in, i(s.n));
    case kObjects: return JsonStreamSelectNonemptyObjectsStream(ex, in);
    case kArrays: return JsonStreamSelectNonemptyArraysStream(ex, in);
    case kNonnull: return JsonStreamSelectNonnullStream(ex, in);
    case kKeyValue: return JsonStreamGetObjectKeyValueStream(ex, in, StrItem(s.key));
    case kKeyValues: return JsonStreamGetObjectKeyValuesStream(ex, in, StrItem(s.key));
    case kImplode: return JsonStreamImplodeArrayStream(ex, in);
    case kExplode: return JsonStreamExplodeArrayStream(ex, in);
    case kNth: return JsonStreamGetArrayNthValueStream(ex, in, i(s.n));
    case kUnquote: return JsonStreamUnquoteStream(ex, in);
    case kQuote: return JsonStreamQuoteStream(ex, in);
    case kChunkValues: return JsonStreamChunkValuesStream(ex, in);
    case kFilter: return StreamFilterJson(ex, in, StrItem(s.path));
    default: return StreamStringFromJson(ex, in, StrItem(s.path));
  }
}

std::string Show(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '\n') {
      r += "\\n";
    } else if (c < 32 || c == 127) {
      char b[8];
      snprintf(b, sizeof b, "<%02x>", c);
      r += b;
    } else {
      r += (char)c;
    }
  }
  return "`" + r + "`";
}
std::string Join(const std::vector<std::string>& v) {
  std::string r;
  for (auto& s : v) r += s;
  return r;
}
bool StartsWith(const std::string& a, const std::string& b) { return a.compare(0, b.size(), b) == 0; }

struct JRead {
  std::vector<std::string> chunks;
  Read read;
  std::string text() const { return Join(chunks); }
};

// Keeps the text of the items.
void Collect(const std::shared_ptr<JRead>& r) {
  JRead* p = r.get();
  p->read.get = [p](TypedRef item) -> int64_t {
    if (item.GetType() != GetQType<DataSlice>()) Violation("wrong-type", "an output item is not a DataSlice");
    const auto& ds = item.UnsafeAs<DataSlice>();
    if (!ds.is_item() || ds.GetSchemaImpl() != koladata::schema::kString || !ds.item().holds_value<arolla::Text>()) {
      Violation("wrong-type", "an output item is not a present STRING");
    }
    vsim::NoPreempt np;
    p->chunks.push_back(std::string(ds.item().value<arolla::Text>().view()));
    return (int64_t)p->chunks.size();
  };
}

// The output for the text as one chunk, without concurrency.
JRead Reference(const JSpec& spec, const std::string& text) {
  auto [in, w] = MakeStream(GetQType<DataSlice>());
  auto item = StrItem(text);
  w->Write(TypedRef::FromValue(item));
  std::move(*w).Close();
  w.reset();
  auto out = StartOp(spec, GetEagerExecutor(), in);
  if (!out.ok()) Violation("wrong-end", "%s failed to start: %s", spec.Show().c_str(), std::string(out.status().message()).c_str());
  auto r = std::make_shared<JRead>();
  Collect(r);
  r->read.end = ReadClosed(*out, r->read.get).end;
  if (!r->read.end.closed) Violation("not-closed", "%s of %s as one chunk: the output was never closed", spec.Show().c_str(), Show(text).c_str());
  JRead res = std::move(*r);
  res.read.get = nullptr;
  return res;
}

std::string GenPath() {
  static const char* p[] = {"$", "$.a", "$[*]", "$.a[*]", "$.a.b", "$.a[*].b", "$[*].a", "$[*][*]", "$.x", "$.b.x"};
  return p[Pick(10)];
}

JSpec GenSpec(JOp op) {
  JSpec s;
  s.op = op;
  if (op == kSalvage) {
    s.allow_nan = Pick(2);
    s.ensure_ascii = Pick(2);
    if (Chance(1, 5)) s.max_depth = Pick(4);
  }
  if (op == kPrettify) {
    static const char* p[] = {"  ", "", " ", "\t", "    "};
    s.indent = p[Pick(5)];
  }
  if (op == kHead || op == kNth) s.n = Chance(1, 8) ? -1 - Pick(3) : Pick(4);
  if (op == kKeyValue || op == kKeyValues) s.key = jm::kKeys[Pick(Chance(1, 3) ? jm::kNumKeys : 3)];
  if (op == kFilter || op == kStringValue) s.path = GenPath();
  return s;
}

// What happens during a run.
struct JFaults {
  bool cancel = false, abandon = false, endless = false, input_error = false, wrong_item = false, missing = false;
};

struct JWorld {
  CancellationContextPtr ctx;
  bool cancel_done = false;
  bool saw_ctx_error = false;
};

// Runs the operator on the chunks, and checks all that does not depend on the
// values: `check(output, complete)` sees what was read.
void RunJson(const JSpec& spec, const std::string& text, std::vector<std::string> chunks, const JFaults& f,
             const std::function<void(const JRead&, bool complete)>& check, bool must_end_early = false) {
  auto w = std::make_shared<JWorld>();
  Exec ex = MakeExec(f.cancel || f.abandon);
  absl::Status why = absl::CancelledError("stop!");
  auto what = [&] { return spec.Show() + " of " + Show(text); };
  if (f.cancel) {
    w->ctx = CancellationContext::Make();
    vsim::Count("cancelled");
    vsim::Spawn([w, why] {
      int n = Pick(10);
      for (int i = 0; i < n; ++i) Pause();
      w->ctx->Cancel(why);
      vsim::NoPreempt np;
      w->cancel_done = true;
    }, "canceller");
  }
  // The source.
  std::vector<TypedValue> items;
  for (auto& c : chunks) {
    if (f.missing && Chance(1, 4)) items.push_back(TypedValue::FromValue(DataSlice::Item(DataItem(), koladata::schema::kString)));
    items.push_back(TypedValue::FromValue(StrItem(c)));
  }
  int wrong_at = -1;
  if (f.wrong_item) {
    vsim::Count("wrong-item");
    wrong_at = Pick(items.size() + 1);
    DataSlice bad;
    switch (Pick(3)) {
      case 0: bad = DataSlice::CreatePrimitive((int64_t)7); break;
      case 1: bad = DataSlice::List({1, 2}, 1); break;
      default: bad = DataSlice::CreatePrimitive(arolla::Unit{}); break;
    }
    items.insert(items.begin() + wrong_at, TypedValue::FromValue(bad));
  }
  absl::Status end;
  bool drop = false;
  if (f.input_error) {
    drop = Chance(1, 3);
    end = drop ? absl::CancelledError("orphaned") : SomeError(70 + (int)text.size() % 5);
    vsim::Count(drop ? "writer-dropped" : "input-error");
  }
  auto [stream, writer] = MakeStream(GetQType<DataSlice>(), Pick(4) == 1 ? 1 + Pick(8) : 0);
  auto held = std::make_shared<std::unique_ptr<StreamWriter>>(std::move(writer));
  std::function<void(bool)> feed = [held, items, drop, end, endless = f.endless](bool pauses) mutable {
    for (auto& v : items) {
      if (pauses && Pick(3) == 0) Pause();
      (*held)->Write(v.AsRef());
    }
    items.clear();
    if (endless) return;
    if (pauses) Pause();
    if (!drop) std::move(**held).Close(end);
    held->reset();
  };
  if (f.endless) vsim::Count("input-never-ends");
  bool prefilled = Pick(3) == 0;
  if (prefilled) feed(false);
  absl::StatusOr<StreamPtr> out = absl::UnknownError("");
  {
    std::optional<CancellationContext::ScopeGuard> guard;
    if (w->ctx) guard.emplace(w->ctx);
    out = StartOp(spec, ex.ptr, stream);
  }
  stream.reset();
  if (!out.ok()) Violation("wrong-end", "%s failed to start", what().c_str());
  if (!prefilled) vsim::Spawn([feed]() mutable { feed(true); }, "source");
  feed = nullptr;
  auto r = std::make_shared<JRead>();
  Collect(r);
  if (f.abandon) vsim::Count("abandoned");
  int stop_after = f.abandon ? Pick(4) : -1;
  StreamPtr keep = f.abandon ? nullptr : *out;
  vsim::Spawn([r, s = *std::move(out), stop_after]() mutable {
    auto reader = s->MakeReader();
    s.reset();
    ReadAll(std::move(reader), r->read, stop_after);
  }, "reader");
  out = absl::UnknownError("");
  vsim::Quiesce(f.endless);
  if (f.cancel && !w->cancel_done) Violation("stuck-cancel", "Cancel() never returned");

  auto verify = [&](const JRead& got, bool must_close) {
    const End& e = got.read.end;
    bool troubled = w->cancel_done || Discarded(ex);
    auto show = [&] { return Show(got.text()) + " " + Str(e); };
    if (!e.closed) {
      if (must_close) Violation("not-closed", "%s: the output was never closed; got %s", what().c_str(), show().c_str());
      check(got, false);
      return;
    }
    if (e.ok()) {
      // With an error in the input, only an operator that needs no more input
      // may end well.
      check(got, true);
      return;
    }
    bool expected = false;
    if (f.input_error && e == ToEnd(end)) expected = true;
    if (f.wrong_item && e.code == (int)absl::StatusCode::kInvalidArgument) expected = true;
    if (w->cancel_done && e == ToEnd(why)) expected = true;
    if (troubled && IsOrphaned(e)) expected = true;
    if (!expected) {
      // An error of the operator about its input: the reference must have it too.
      JRead ref = Reference(spec, text);
      if (!(ref.read.end == e)) Violation("wrong-end", "%s: unexpected end: %s; as one chunk: %s", what().c_str(), show().c_str(), Str(ref.read.end).c_str());
    }
    check(got, false);
  };
  if (!f.abandon) {
    bool must = !f.endless || f.wrong_item || w->cancel_done || (must_end_early && !Discarded(ex));
    verify(*r, must);
  }
  if (*held) {
    held->reset();
    vsim::Quiesce();
    if (keep) {
      auto late = std::make_shared<JRead>();
      Collect(late);
      late->read.end = ReadClosed(keep, late->read.get).end;
      late->read.get = nullptr;
      if (!late->read.end.closed) Violation("not-closed", "%s: the output was never closed", what().c_str());
      if (!StartsWith(late->text(), r->text())) Violation("wrong-items", "%s: two readers saw different items", what().c_str());
    }
  }
  r->read.get = nullptr;
  keep.reset();
  held.reset();
  w->ctx.reset();
  Finish(ex);
}

JFaults GenFaults(bool endless_ok) {
  JFaults f;
  f.missing = Pick(3) == 0;
  switch (Chance(1, 2) ? 0 : 1 + Pick(6)) {
    case 1: f.cancel = true; break;
    case 2: f.abandon = true; break;
    case 3: f.endless = endless_ok; break;
    case 4: f.input_error = true; break;
    case 5: f.wrong_item = true; break;
    case 6:
      f.cancel = true;
      f.endless = endless_ok;
      break;
  }
  return f;
}

// ---- chunking and faults ----------------------------------------------------
void Json() {
  JSpec spec = GenSpec((JOp)Pick(kNumJOps));
  bool relaxed = spec.op == kFilter || spec.op == kStringValue;
  std::string text;
  jm::GenOptions g;
  g.max_depth = 3;
  bool utf8 = true;
  if (spec.op == kSalvage) {
    switch (Pick(5)) {
      case 0: jm::GenValues(g, 3, &text); break;
      case 1:
        g.variant = true;
        jm::GenValues(g, 3, &text);
        break;
      case 2: text = jm::GenSoup(10, true); break;
      case 3:
        text = jm::GenSoup(10, false);
        utf8 = false;
        break;
      default: text = jm::GenText(12); break;
    }
  } else if (spec.op == kQuote) {
    text = jm::GenText(20);
  } else {
    jm::GenValues(g, 4, &text);
    if (relaxed && Chance(1, 3)) {
      for (auto& c : text) {
        if (Chance(1, 12)) c = "'a ,:[]{}\n1"[Pick(11)];
      }
      utf8 = jm::IsUtf8(text);
    }
  }
  JRead ref = Reference(spec, text);
  if (spec.op != kStringValue && spec.op != kFilter && !ref.read.end.ok()) {
    Violation("wrong-end", "%s of %s as one chunk ended with %s", spec.Show().c_str(), Show(text).c_str(), Str(ref.read.end).c_str());
  }
  JFaults f = GenFaults(true);
  if (relaxed) f.missing = false;
  vsim::Log("%s of %s", spec.Show().c_str(), Show(text).c_str());
  // An operator that fails in the middle of a chunk may keep back what it got
  // from that chunk.
  bool ref_ok = ref.read.end.ok();
  RunJson(spec, text, jm::Split(text, utf8), f, [&](const JRead& got, bool complete) {
    std::string t = got.text(), want = ref.text();
    auto show = [&] { return Show(t) + ", as one chunk " + Show(want); };
    if (utf8) {
      for (auto& c : got.chunks) {
        if (!jm::IsUtf8(c)) Violation("bad-utf8", "%s of %s: an output chunk is not UTF-8: %s", spec.Show().c_str(), Show(text).c_str(), Show(c).c_str());
      }
    }
    if (!ref_ok) {
      // A string that ends before the error is a complete result.
      if (complete && !f.endless && spec.op != kStringValue) Violation("wrong-items", "%s of %s ended well, but failed as one chunk", spec.Show().c_str(), Show(text).c_str());
      return;
    }
    if (complete ? t != want : !StartsWith(want, t)) {
      Violation(complete ? "chunk-dependent" : "not-prefix", "%s of %s: got %s", spec.Show().c_str(), Show(text).c_str(), show().c_str());
    }
    if (complete && (f.input_error || f.wrong_item) && spec.op != kHead && spec.op != kStringValue) {
      Violation("error-lost", "%s of %s ended well although its input failed", spec.Show().c_str(), Show(text).c_str());
    }
    // The chunks of filter_json and chunk_values are values.
    if (spec.op == kFilter || spec.op == kChunkValues) {
      for (size_t i = 0; i < got.chunks.size(); ++i) {
        if (i >= ref.chunks.size() || got.chunks[i] != ref.chunks[i]) {
          Violation("chunk-dependent", "%s of %s: the values depend on the chunks of the input: %s", spec.Show().c_str(), Show(text).c_str(), show().c_str());
        }
      }
    }
  });
}
vsim::Scenario s9("json", Json);

// ---- values -----------------------------------------------------------------
using jm::Val;

Val Null() { return Val(); }
Val Arr(std::vector<Val> items) {
  Val v;
  v.kind = Val::kArr;
  v.items = std::move(items);
  return v;
}

void AtPath(const Val& v, const std::string& here, const std::string& path, std::vector<Val>* out) {
  for (auto& i : v.items) AtPath(i, here + "[*]", path, out);
  for (auto& f : v.fields) AtPath(f.second, here + "." + f.first, path, out);
  if (here == path) out->push_back(v);
}
// In the order of their beginnings.
const Val* FirstString(const Val& v, const std::string& here, const std::string& path) {
  if (here == path && v.kind == Val::kStr) return &v;
  for (auto& i : v.items) {
    if (auto* r = FirstString(i, here + "[*]", path)) return r;
  }
  for (auto& f : v.fields) {
    if (auto* r = FirstString(f.second, here + "." + f.first, path)) return r;
  }
  return nullptr;
}

std::vector<Val> Expected(const JSpec& s, const std::vector<Val>& in) {
  std::vector<Val> r;
  if (s.op == kImplode) return {Arr(in)};
  for (const Val& v : in) {
    switch (s.op) {
      case kHead:
        if ((int64_t)r.size() < s.n) r.push_back(v);
        break;
      case kObjects: if (v.kind == Val::kObj && !v.fields.empty()) r.push_back(v); break;
      case kArrays: if (v.kind == Val::kArr && !v.items.empty()) r.push_back(v); break;
      case kNonnull: if (v.kind != Val::kNull) r.push_back(v); break;
      case kKeyValue: case kKeyValues: {
        std::vector<Val> all;
        for (auto& f : v.fields) if (f.first == s.key) all.push_back(f.second);
        r.push_back(s.op == kKeyValues ? Arr(all) : all.empty() ? Null() : all[0]);
        break;
      }
      case kExplode: for (auto& i : v.items) r.push_back(i); break;
      case kNth: r.push_back(s.n >= 0 && s.n < (int64_t)v.items.size() ? v.items[s.n] : Null()); break;
      case kFilter: AtPath(v, "$", s.path, &r); break;
      default: r.push_back(v);
    }
  }
  return r;
}
void AllStrings(const Val& v, std::string* out) {
  if (v.kind == Val::kStr) *out += v.str;
  for (auto& i : v.items) AllStrings(i, out);
  for (auto& f : v.fields) {
    *out += f.first;
    AllStrings(f.second, out);
  }
}

void Values() {
  JSpec spec = GenSpec((JOp)(1 + Pick(kNumJOps - 1)));
  std::string text;
  jm::GenOptions g;
  g.max_depth = 2 + Pick(2);
  g.plain_keys = spec.op == kFilter || spec.op == kStringValue;
  g.containers = Pick(2);
  std::vector<Val> in;
  if (spec.op == kQuote) {
    text = jm::GenText(20);
  } else {
    in = jm::GenValues(g, 4, &text);
  }
  JFaults f;
  f.missing = spec.op != kFilter && spec.op != kStringValue && Pick(4) == 0;
  f.endless = Chance(1, 6) && spec.op == kHead && spec.n >= 1 && spec.n <= (int64_t)in.size();
  if (f.endless) text += "\n";
  vsim::Log("%s of %s", spec.Show().c_str(), Show(text).c_str());
  RunJson(spec, text, jm::Split(text, true), f, [&](const JRead& got, bool complete) {
    if (!complete) Violation("wrong-end", "%s of %s ended with %s", spec.Show().c_str(), Show(text).c_str(), Str(got.read.end).c_str());
    std::string t = got.text();
    auto bad = [&](const std::string& why) { Violation("wrong-value", "%s of %s gave %s: %s", spec.Show().c_str(), Show(text).c_str(), Show(t).c_str(), why.c_str()); };
    std::string err;
    std::vector<Val> out;
    if (spec.op == kUnquote || spec.op == kStringValue) {
      std::string want;
      for (auto& v : in) {
        if (spec.op == kUnquote) {
          AllStrings(v, &want);
        } else if (auto* s = FirstString(v, "$", spec.path)) {
          want = s->str;
          break;
        }
      }
      if (t != want) bad("expected " + Show(want));
      return;
    }
    if (spec.op == kFilter) {
      auto want = Expected(spec, in);
      std::vector<Val> all;
      for (auto& c : got.chunks) {
        std::vector<Val> one;
        if (!jm::Parse(c, false, &one, &err)) bad("a chunk is not JSON: " + err);
        if (one.size() != 1 || !jm::HasNoWhitespace(c)) bad("a chunk is not one compact value");
        all.push_back(one[0]);
      }
      if (all.size() != want.size() || !jm::Equal(Arr(all), Arr(want))) bad("expected " + jm::Show(want));
      return;
    }
    if (!jm::Parse(t, false, &out, &err)) bad("not JSON: " + err);
    if (spec.op == kQuote) {
      if (out.size() != 1 || out[0].kind != Val::kStr || out[0].str != text) bad("not the quoted text");
      if (jm::UnneededEscapes(out[0].raw)) bad("unnecessary escapes");
      return;
    }
    auto want = Expected(spec, in);
    if (out.size() != want.size() || !jm::Equal(Arr(out), Arr(want))) bad("expected " + jm::Show(want));
    if (spec.op == kPrettify) {
      for (auto& v : out) {
        std::string p = jm::Pretty(v, spec.indent);
        if (v.raw != p) bad("layout; expected " + Show(p));
      }
      if (!jm::NewlineSeparated(t, false)) bad("values are not separated by newlines");
      return;
    }
    for (auto& v : out) {
      if (!jm::HasNoWhitespace(v.raw)) bad("unnecessary whitespace");
    }
    if (!jm::NewlineSeparated(t, false)) bad("values are not separated by newlines");
    if (spec.op == kChunkValues) {
      if (got.chunks.size() != in.size()) bad("not one chunk for each value");
      for (size_t i = 0; i < out.size(); ++i) {
        if (got.chunks[i] != out[i].raw + "\n") bad("a chunk is not one value and a newline");
      }
    }
  }, f.endless);
}
vsim::Scenario s10("json_ops", Values);

// ---- salvage ----------------------------------------------------------------
int Depth(const Val& v) {
  int d = 0;
  for (auto& i : v.items) d = std::max(d, Depth(i));
  for (auto& f : v.fields) d = std::max(d, Depth(f.second));
  return d + (v.kind == Val::kArr || v.kind == Val::kObj);
}
void Salvage() {
  JSpec spec = GenSpec(kSalvage);
  std::string text;
  jm::GenOptions g;
  g.max_depth = 3;
  std::vector<Val> in;
  int kind = Pick(6);
  bool valued = kind < 3;
  bool utf8 = true;
  if (valued) {
    g.variant = kind > 0;
    g.lone_surrogates = Pick(4) == 0;
    in = jm::GenValues(g, 3, &text);
    for (auto& v : in) {
      if (Depth(v) > spec.max_depth) valued = false;
    }
  } else if (kind == 3) {
    text = jm::GenSoup(8, true);
  } else if (kind == 4) {
    text = jm::GenSoup(8, false);
    utf8 = false;
  } else {
    text = jm::GenText(12);
  }
  vsim::Log("%s of %s", spec.Show().c_str(), Show(text).c_str());
  JFaults f;
  f.missing = Pick(4) == 0;
  RunJson(spec, text, jm::Split(text, utf8), f, [&](const JRead& got, bool complete) {
    if (!complete) Violation("wrong-end", "%s of %s ended with %s", spec.Show().c_str(), Show(text).c_str(), Str(got.read.end).c_str());
    std::string t = got.text();
    auto bad = [&](const char* k, const std::string& why) { Violation(k, "%s of %s gave %s: %s", spec.Show().c_str(), Show(text).c_str(), Show(t).c_str(), why.c_str()); };
    std::string err;
    std::vector<Val> out;
    if (!jm::Parse(t, spec.allow_nan, &out, &err)) bad("not-json", err);
    // max_depth bounds the memory that nesting takes.
    for (auto& v : out) {
      if (Depth(v) > spec.max_depth + 1) bad("too-deep", "nested deeper than max_depth");
    }
    if (!jm::NewlineSeparated(t, spec.allow_nan)) bad("not-json", "values are not separated by newlines");
    if (spec.ensure_ascii && !jm::IsAscii(t)) bad("not-ascii", "not ASCII");
    if (valued && (out.size() != in.size() || !jm::Equal(Arr(out), Arr(in)))) bad("wrong-value", "expected " + jm::Show(in));
  });
}
vsim::Scenario s11("json_salvage", Salvage);

}  // namespace
}  // namespace sim
