From ef2f7dd9107586b68f4476a60f4f62a2d10e178b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:43 +0000
Subject: [PATCH 01/22] fix: report a closing progress bar under the tqdm lock

tqdm's monitor thread could send an outdated state of a bar to the reporter
after the bar's final state.
---
 py/koladata/ext/tqdm/tqdm.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/py/koladata/ext/tqdm/tqdm.py b/py/koladata/ext/tqdm/tqdm.py
index defa9f7..37ce2bd 100644
--- a/py/koladata/ext/tqdm/tqdm.py
+++ b/py/koladata/ext/tqdm/tqdm.py
@@ -112,12 +112,16 @@ class tqdm(_tqdm_auto.tqdm):  # pylint: disable=invalid-name  # pyrefly: ignore[
 
   def close(self):
     """Close the progress bar and report final progress."""
-    if not self._is_closed:
-      self._is_closed = True
-      # Report final progress before closing, as close() sets disable=True
-      # which prevents further display() calls.
-      self._set_progress()
-    super().close()  # pytype: disable=attribute-error
+    # tqdm's monitor thread refreshes open bars while holding this (re-entrant)
+    # lock. Closing under the same lock ensures that such a refresh cannot send
+    # an outdated state to the reporter after the final one.
+    with self.get_lock():  # pytype: disable=attribute-error
+      if not self._is_closed:
+        self._is_closed = True
+        # Report final progress before closing, as close() sets disable=True
+        # which prevents further display() calls.
+        self._set_progress()
+      super().close()  # pytype: disable=attribute-error
 
   def _set_progress(self):
     """Send current progress state to the active reporter."""
-- 
2.43.0


From 47b1bd9c3b7d59122771481090034f303ff755a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:51 +0000
Subject: [PATCH 02/22] fix: keep the custom metadata of bags in
 DataBagManager.extract_bags()

---
 py/koladata/ext/storage/data_bag_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/koladata/ext/storage/data_bag_manager.py b/py/koladata/ext/storage/data_bag_manager.py
index 94c6d2e..62384dc 100644
--- a/py/koladata/ext/storage/data_bag_manager.py
+++ b/py/koladata/ext/storage/data_bag_manager.py
@@ -350,6 +350,7 @@ class DataBagManager:
         bag_names, with_all_dependents=with_all_dependents
     )
     bag_dependencies = self._get_dependency_relation()
+    bag_custom_metadata = self.get_custom_metadata(bag_name_to_bag.keys())
 
     fs = fs or kd.file_io.get_default_file_system_interaction()
     if not fs.exists(output_dir):
@@ -369,6 +370,7 @@ class DataBagManager:
             bag_name,
             bag=bag_name_to_bag[bag_name],
             dependencies=tuple(bag_dependencies[bag_name]),
+            custom_metadata=bag_custom_metadata[bag_name],
         )
         for bag_name in self.canonical_topological_sorting(
             bag_name_to_bag.keys()
-- 
2.43.0


From 0ef00366ba964f569f232029fcd4b5022e1059b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:02 +0000
Subject: [PATCH 03/22] fix: StreamCall must not close its result as OK when
 the routine is dropped

If the executor discards the task, or the routine notices a cancellation before
OnCancel() could be called, the routine's state is destroyed without the functor
having returned. The destructor of the stream composition then closed the result
with OkStatus(), so that readers saw an empty (or truncated) but complete stream.
---
 koladata/functor/parallel/stream_call.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/koladata/functor/parallel/stream_call.cc b/koladata/functor/parallel/stream_call.cc
index c8ff551..e00a841 100644
--- a/koladata/functor/parallel/stream_call.cc
+++ b/koladata/functor/parallel/stream_call.cc
@@ -64,6 +64,15 @@ class StreamCallHooks final : public BasicRoutineHooks {
     args_.reserve(args_size_);
   }
 
+  ~StreamCallHooks() final {
+    // If the routine was dropped before the functor returned (e.g., the
+    // executor discarded the task, or the routine noticed a cancellation before
+    // OnCancel() could be called), the result must not look complete.
+    if (!functor_returned_) {
+      composition_.AddError(absl::CancelledError("orphaned"));
+    }
+  }
+
   bool Interrupted() const final { return composition_.Orphaned(); }
 
   void OnCancel(absl::Status&& status) final { OnError(std::move(status)); }
@@ -119,6 +128,7 @@ class StreamCallHooks final : public BasicRoutineHooks {
     }
     ASSIGN_OR_RETURN(auto result, std::move(functor_)(args_),
                      OnError(std::move(_)));
+    functor_returned_ = true;
     if (result.GetType() == return_value_type_) {
       composition_.AddItem(result.AsRef());
       return nullptr;
@@ -174,6 +184,7 @@ class StreamCallHooks final : public BasicRoutineHooks {
   const size_t args_size_;
   size_t awaited_arg_index_;
   std::vector<arolla::TypedRef> args_;
+  bool functor_returned_ = false;
   StreamInterleave composition_;
 };
 
-- 
2.43.0


From e52c0ada246afcf231ba6125d70a3352e4af4114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:41 +0000
Subject: [PATCH 04/22] fix: StreamWriter::TryWrite must fail once the writer
 is orphaned by TryClose

TryClose() first sets the closed_ flag, which makes Orphaned() true, and only
then stores the status. A TryWrite() in between still reached the readers, in
contradiction with Orphaned(). E.g., a StreamForReturns interrupted by
a cancellation could publish the intermediate value of its loop as the result,
right before the cancellation status.
---
 koladata/functor/parallel/stream.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/koladata/functor/parallel/stream.cc b/koladata/functor/parallel/stream.cc
index ce866d8..b0d5642 100644
--- a/koladata/functor/parallel/stream.cc
+++ b/koladata/functor/parallel/stream.cc
@@ -257,6 +257,9 @@ bool StreamImpl::Writer::TryWrite(arolla::TypedRef value) {
     LOG(FATAL) << "expected a value of type " << value_qtype()->name()
                << ", got " << value.GetType()->name();
   }
+  if (closed_.test(std::memory_order_relaxed)) {
+    return false;  // The stream is already closed, or about to be.
+  }
   auto stream = weak_stream_.lock();
   if (stream == nullptr) {
     return false;  // The stream object is gone.
-- 
2.43.0


From 296887be8eea3e1af37485be5f609b10a193713c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:39 +0000
Subject: [PATCH 05/22] fix: JSON stream filters must not write to a stream
 that cancellation has closed

---
 koladata/functor/parallel/stream_filter_json.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/koladata/functor/parallel/stream_filter_json.cc b/koladata/functor/parallel/stream_filter_json.cc
index bb06066..652d022 100644
--- a/koladata/functor/parallel/stream_filter_json.cc
+++ b/koladata/functor/parallel/stream_filter_json.cc
@@ -60,7 +60,8 @@ class StreamFilterJsonHooks final : public BasicRoutineHooks {
         [this](absl::string_view path, absl::string_view json) {
           if (path == field_to_extract_) {
             DataSlice ds_out = DataSlice::CreatePrimitive(arolla::Text(json));
-            writer_->Write(arolla::TypedRef::FromValue(ds_out));
+            // The stream may be closed concurrently by OnCancel().
+            (void)writer_->TryWrite(arolla::TypedRef::FromValue(ds_out));
           }
         });
   }
@@ -206,7 +207,8 @@ class StreamStringFromJsonHooks final : public BasicRoutineHooks {
     if (!res.empty()) {
       DataSlice ds_out =
           DataSlice::CreatePrimitive(arolla::Text(std::move(res)));
-      writer_->Write(arolla::TypedRef::FromValue(ds_out));
+      // The stream may be closed concurrently by OnCancel().
+      (void)writer_->TryWrite(arolla::TypedRef::FromValue(ds_out));
     }
     return absl::OkStatus();
   }
-- 
2.43.0


From 9cd92e9201a9a33483e366a77be6caa5e99f4b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:39 +0000
Subject: [PATCH 06/22] fix: JsonExtractValues must not take a string after an
 empty object for a key

---
 koladata/internal/op_utils/json_stream.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index 55fc89b..f4444cb 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -1368,6 +1368,7 @@ JsonStreamProcessResult JsonExtractValuesStreamProcessor::Process(
 
         if (!is_in_match_) {
           container_path_stack_.pop_back();
+          is_object_key_ = false;
         }
       } else if (c == ',') {
         if (is_in_match_) {
-- 
2.43.0


From a6685b5d93839d9adc8fc44e6b1049f31082f783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:32 +0000
Subject: [PATCH 07/22] fix: get_array_nth_value must emit null for every
 top-level scalar and for negative n

---
 koladata/internal/op_utils/json_stream.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index f4444cb..4f982d6 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -1540,6 +1540,9 @@ JsonStreamProcessResult JsonGetArrayNthValueStreamProcessor::Process(
         is_in_escape_ = false;
       } else if (c == '"') {
         is_in_string_ = false;
+        if (container_depth_ == 0) {
+          end_top_level_value();
+        }
       } else if (c == '\\') {
         is_in_escape_ = true;
       }
@@ -1576,7 +1579,7 @@ JsonStreamProcessResult JsonGetArrayNthValueStreamProcessor::Process(
             } else {
               output.append("null\n");
             }
-          } else if (top_level_array_value_index_ < options_.n) {
+          } else {
             emit_top_level_null_if_not_already_done();
           }
           end_top_level_value();
@@ -1603,6 +1606,8 @@ JsonStreamProcessResult JsonGetArrayNthValueStreamProcessor::Process(
         if (container_depth_ == 0) {
           emit_top_level_null_if_not_already_done();
         }
+      } else if (container_depth_ == 0) {
+        end_top_level_value();
       }
     }
   }
-- 
2.43.0


From 1747bae0fcd253873d40e987a4b63e3d57642976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:32 +0000
Subject: [PATCH 08/22] fix: JSON salvage must end a comment at "**/"

---
 koladata/internal/op_utils/json_stream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index 4f982d6..65512f0 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -630,7 +630,7 @@ bool JsonSalvageStreamProcessor::ProcessCommentRules(
     } else {
       if (c == '/') {
         SetStateWithBuffer(State::kBase, "");
-      } else {
+      } else if (c != '*') {
         ClearBuffer();
       }
     }
-- 
2.43.0


From 057964b7ec39dc07e84f4f11250992253f90eb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:32 +0000
Subject: [PATCH 09/22] fix: JSON salvage must escape the character after an
 invalid escape

---
 koladata/internal/op_utils/json_stream.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index 65512f0..134ea82 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -464,8 +464,8 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
         EndString();
       } else {
         // Invalid escape "\?" -> "\\?".
-        EmitRawOutput("\\\\");
-        EmitRawOutput(c);
+        EmitJsonStringCodePoint('\\');
+        EmitJsonStringCodePoint(c);
         ClearBuffer();
       }
     } else if (BufferEquals("\\\r")) {
-- 
2.43.0


From 931c692102b29c594306aade0c9a76de7e14b110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:32 +0000
Subject: [PATCH 10/22] fix: JSON salvage must end the value of "``" at the end
 of the input

---
 koladata/internal/op_utils/json_stream.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index 134ea82..908b8cd 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -311,6 +311,7 @@ bool JsonSalvageStreamProcessor::ProcessBaseRules(std::optional<char32_t> c) {
     }
   } else if (BufferEquals("``") && c == std::nullopt) {
     EmitRawOutput("\"\"");
+    EndValue();
   } else if (BufferEquals("-") && c == '0') {
     EmitRawOutput('-');
     SetStateWithBuffer(State::kNumberBuffered, "0");
-- 
2.43.0


From 4caa54342347186c181d5f60642a4e3bda41f985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:32 +0000
Subject: [PATCH 11/22] fix: JSON salvage must process an escape after a quote
 in a triple-quoted string

---
 koladata/internal/op_utils/json_stream.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index 908b8cd..fc99a84 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -485,8 +485,8 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
         AppendToBuffer('"');
       } else if (c.has_value()) {
         EmitJsonStringCodePoint('"');
-        EmitJsonStringCodePoint(*c);
         ClearBuffer();
+        consumed_c = false;
       } else {
         EndString();
       }
@@ -498,8 +498,8 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
       } else if (c.has_value()) {
         EmitJsonStringCodePoint('"');
         EmitJsonStringCodePoint('"');
-        EmitJsonStringCodePoint(*c);
         ClearBuffer();
+        consumed_c = false;
       }
     } else if (BufferEquals("'")) {
       // Maybe end of triple single quoted string.
@@ -508,8 +508,8 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
         AppendToBuffer('\'');
       } else if (c.has_value()) {
         EmitJsonStringCodePoint('\'');
-        EmitJsonStringCodePoint(*c);
         ClearBuffer();
+        consumed_c = false;
       } else {
         EndString();
       }
@@ -521,8 +521,8 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
       } else {
         EmitJsonStringCodePoint('\'');
         EmitJsonStringCodePoint('\'');
-        EmitJsonStringCodePoint(*c);
         ClearBuffer();
+        consumed_c = false;
       }
     } else if (BufferStartsWith("\\u")) {
       if (BufferEquals("\\u") && c == '{') {
-- 
2.43.0


From 6850ba8477c025ab085fa4e69340994555e70cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:08 +0000
Subject: [PATCH 12/22] fix: stream_string_value must not drop the rest of a
 chunk after an invalid \u escape

---
 koladata/functor/parallel/stream_filter_json.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/koladata/functor/parallel/stream_filter_json.cc b/koladata/functor/parallel/stream_filter_json.cc
index 652d022..802658c 100644
--- a/koladata/functor/parallel/stream_filter_json.cc
+++ b/koladata/functor/parallel/stream_filter_json.cc
@@ -155,7 +155,6 @@ class StreamStringFromJsonHooks final : public BasicRoutineHooks {
         // Note: we ignore invalid \uXXXX sequence and continue streaming.
         utf_code_.clear();
         state_ = STREAMING;
-        break;
       }
       switch (state_) {
         case START_STREAMING:
@@ -293,7 +292,7 @@ class StreamStringFromJsonHooks final : public BasicRoutineHooks {
     FINISHED
   } state_ = FILTERING;
   std::string utf_code_;
-  int utf16_high_surrogate_;
+  int utf16_high_surrogate_ = 0;
 };
 
 }  // namespace
-- 
2.43.0


From 0f8afc5fdf1369bd17d2b0061d4ced040470f029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:08 +0000
Subject: [PATCH 13/22] fix: JSON salvage must not pair surrogates across
 another escape

---
 koladata/internal/op_utils/json_stream.cc | 14 +++++++++-----
 koladata/internal/op_utils/json_stream.h  |  1 +
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index fc99a84..20ce2f8 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -436,6 +436,7 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
       // First character of escape sequence.
       if (c == '"' || c == '\\' || c == '/' || c == 'b' || c == 'f' ||
           c == 'n' || c == 'r' || c == 't') {
+        EmitJsonStringUnpairedSurrogate();
         EmitRawOutput('\\');
         EmitRawOutput(c);
         ClearBuffer();
@@ -446,7 +447,7 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
         EmitJsonStringCodePoint('\v');
         ClearBuffer();
       } else if (c == '`' || c == '\'') {
-        EmitRawOutput(c);
+        EmitJsonStringCodePoint(c);
         ClearBuffer();
       } else if (c == 'u' || c == 'U') {
         AppendToBuffer(c);
@@ -928,9 +929,8 @@ void JsonSalvageStreamProcessor::EmitJsonStringCodePoint(
     return;
   }
 
-  if (json_string_utf16_first_surrogate_.has_value() && !U16_IS_TRAIL(*c)) {
-    json_string_utf16_first_surrogate_.reset();
-    EmitJsonStringCodePoint(kReplacementCharacter);
+  if (!U16_IS_TRAIL(*c)) {
+    EmitJsonStringUnpairedSurrogate();
   }
 
   if (c == '\b') {
@@ -989,11 +989,15 @@ void JsonSalvageStreamProcessor::EmitJsonStringCodePoint(
   }
 }
 
-void JsonSalvageStreamProcessor::EmitJsonStringEnd() {
+void JsonSalvageStreamProcessor::EmitJsonStringUnpairedSurrogate() {
   if (json_string_utf16_first_surrogate_.has_value()) {
     json_string_utf16_first_surrogate_.reset();
     EmitJsonStringCodePoint(kReplacementCharacter);
   }
+}
+
+void JsonSalvageStreamProcessor::EmitJsonStringEnd() {
+  EmitJsonStringUnpairedSurrogate();
   EmitRawOutput('"');
 }
 
diff --git a/koladata/internal/op_utils/json_stream.h b/koladata/internal/op_utils/json_stream.h
index 6369ce3..57f10b0 100644
--- a/koladata/internal/op_utils/json_stream.h
+++ b/koladata/internal/op_utils/json_stream.h
@@ -169,6 +169,7 @@ class JsonSalvageStreamProcessor {
 
   void EmitJsonStringStart();
   void EmitJsonStringCodePoint(std::optional<char32_t> c);
+  void EmitJsonStringUnpairedSurrogate();
   void EmitJsonStringEnd();
 
   void EmitRawOutput(std::string_view s);
-- 
2.43.0


From 6c59c9ed330b32bee10394d00553255a6b7ccceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:29 +0000
Subject: [PATCH 14/22] fix: JSON salvage must not emit a signed number as an
 object key

---
 koladata/internal/op_utils/json_stream.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index 20ce2f8..6262599 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -312,22 +312,22 @@ bool JsonSalvageStreamProcessor::ProcessBaseRules(std::optional<char32_t> c) {
   } else if (BufferEquals("``") && c == std::nullopt) {
     EmitRawOutput("\"\"");
     EndValue();
-  } else if (BufferEquals("-") && c == '0') {
+  } else if (!is_object_key_ && BufferEquals("-") && c == '0') {
     EmitRawOutput('-');
     SetStateWithBuffer(State::kNumberBuffered, "0");
-  } else if (BufferEquals("-") && (c >= '1' && c <= '9')) {
+  } else if (!is_object_key_ && BufferEquals("-") && (c >= '1' && c <= '9')) {
     EmitRawOutput('-');
     EmitRawOutput(c);
     SetStateWithBuffer(State::kNumberDecimal, "");
-  } else if (BufferEquals("-") && c == '.') {
+  } else if (!is_object_key_ && BufferEquals("-") && c == '.') {
     EmitRawOutput("-0.");
     SetStateWithBuffer(State::kNumberDecimal, ".");
-  } else if (BufferEquals("+") && c == '0') {
+  } else if (!is_object_key_ && BufferEquals("+") && c == '0') {
     SetStateWithBuffer(State::kNumberBuffered, "0");
-  } else if (BufferEquals("+") && (c >= '1' && c <= '9')) {
+  } else if (!is_object_key_ && BufferEquals("+") && (c >= '1' && c <= '9')) {
     EmitRawOutput(c);
     SetStateWithBuffer(State::kNumberDecimal, "");
-  } else if (BufferEquals("+") && c == '.') {
+  } else if (!is_object_key_ && BufferEquals("+") && c == '.') {
     EmitRawOutput("0.");
     SetStateWithBuffer(State::kNumberDecimal, ".");
   } else if (!IsValidUnquotedStringNextCodePoint(c)) {
-- 
2.43.0


From 133184aa83f1c148079236497c2a6a59814bcfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:04 +0000
Subject: [PATCH 15/22] fix: disabling traced type checking must not leak to
 other threads

The disable_traced_type_checking context manager used a process global
counter, so a thread (or coroutine) inside it switched the checks off for
everybody else. Use a context variable instead.
---
 py/koladata/type_checking/type_checking.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/py/koladata/type_checking/type_checking.py b/py/koladata/type_checking/type_checking.py
index b47a091..9ed44c5 100644
--- a/py/koladata/type_checking/type_checking.py
+++ b/py/koladata/type_checking/type_checking.py
@@ -17,6 +17,7 @@ from __future__ import annotations
 
 from collections.abc import Mapping
 import contextlib
+import contextvars
 import dataclasses
 import functools
 import inspect
@@ -44,11 +45,15 @@ OBJECT_TIP = (
     ' objects( go/koda-common-pitfalls#non-objects-vs-objects ). You can'
     ' create entities by using kd.new/kd.uu instead of kd.obj/kd.uuobj.')
 
-_DISABLE_TRACED_TYPE_CHECKING_COUNTER = 0
+# Like the tracing mode itself, this must not leak into other threads or
+# coroutines.
+_TRACED_TYPE_CHECKING_DISABLED = contextvars.ContextVar(
+    'TRACED_TYPE_CHECKING_DISABLED', default=False
+)
 
 
 def _is_traced_type_checking_disabled():
-  return _DISABLE_TRACED_TYPE_CHECKING_COUNTER > 0
+  return _TRACED_TYPE_CHECKING_DISABLED.get()
 
 _PARAMETER_SCHEMA_FOR_TYPE_MIXING = eager.schema.new_schema(
     default_value=schema_constants.OBJECT
@@ -77,13 +82,11 @@ def _signature_uuid(
 
 @contextlib.contextmanager
 def disable_traced_type_checking():
-  global _DISABLE_TRACED_TYPE_CHECKING_COUNTER
-  _DISABLE_TRACED_TYPE_CHECKING_COUNTER += 1
-
+  token = _TRACED_TYPE_CHECKING_DISABLED.set(True)
   try:
     yield
   finally:
-    _DISABLE_TRACED_TYPE_CHECKING_COUNTER -= 1
+    _TRACED_TYPE_CHECKING_DISABLED.reset(token)
 
 TypeConstraint: TypeAlias = (
     'schema_item.SchemaItem | _DuckType | _StaticWhenTraced | _FunctorType'
-- 
2.43.0


From b33d80a8ebc317bcaaac0bf03a07b4c124ca7135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:04 +0000
Subject: [PATCH 16/22] fix: check_inputs must apply argument defaults in
 tracing mode

Tracing a call that omits an argument with a default raised KeyError, because
the defaults were applied only for eager calls.
---
 py/koladata/type_checking/type_checking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/koladata/type_checking/type_checking.py b/py/koladata/type_checking/type_checking.py
index 9ed44c5..9170bf7 100644
--- a/py/koladata/type_checking/type_checking.py
+++ b/py/koladata/type_checking/type_checking.py
@@ -666,8 +666,8 @@ def check_inputs(**kw_constraints: TypeConstraint):
 
     def check_inputs_decorator(*args, **kwargs):
       bound_args = signature.bind(*args, **kwargs)
+      bound_args.apply_defaults()
       if not tracing_mode.is_tracing_enabled():
-        bound_args.apply_defaults()
         _verify_inputs_eager(bound_args, kw_constraints)
         return f(*args, **kwargs)
       else:
-- 
2.43.0


From 8ad214eb0ce3ab643a35d3284091913e7fe7705d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:13 +0000
Subject: [PATCH 17/22] fix: StreamWriter.close() must mark the writer closed
 before it notifies the readers

---
 py/koladata/functor/parallel/py_stream.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/koladata/functor/parallel/py_stream.cc b/py/koladata/functor/parallel/py_stream.cc
index be6ecff..d6ef754 100644
--- a/py/koladata/functor/parallel/py_stream.cc
+++ b/py/koladata/functor/parallel/py_stream.cc
@@ -505,8 +505,10 @@ PyObject* PyStreamWriter_close(PyObject* self, PyObject* py_tuple_args,
                            absl::StrFormat("Python exception: %s",
                                            Py_TYPE(py_exception)->tp_name));
   }
-  std::move(*fields.stream_writer).Close(std::move(close_status));
+  // Note: Close() may run the subscribers' callbacks, and these may access this
+  // writer; so the flag needs to be set beforehand.
   fields.closed = true;
+  std::move(*fields.stream_writer).Close(std::move(close_status));
   Py_RETURN_NONE;
 }
 
-- 
2.43.0


From a0d0eabbf3dd33672f08e6e2c5c00342d261acae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:32 +0000
Subject: [PATCH 18/22] fix: dropping an unclosed StreamWriter must keep the
 exception being raised

---
 py/koladata/functor/parallel/py_stream.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/py/koladata/functor/parallel/py_stream.cc b/py/koladata/functor/parallel/py_stream.cc
index d6ef754..17a7867 100644
--- a/py/koladata/functor/parallel/py_stream.cc
+++ b/py/koladata/functor/parallel/py_stream.cc
@@ -59,6 +59,7 @@ using ::arolla::python::AcquirePyGIL;
 using ::arolla::python::DCheckPyGIL;
 using ::arolla::python::IsPyQValueInstance;
 using ::arolla::python::PyCancellationScope;
+using ::arolla::python::PyErr_FetchRaisedException;
 using ::arolla::python::PyErr_RestoreRaisedException;
 using ::arolla::python::PyObjectGILSafePtr;
 using ::arolla::python::PyObjectPtr;
@@ -132,7 +133,13 @@ PyStreamYieldAllObject::Fields& PyStreamYieldAll_fields(PyObject* self) {
 
 void PyStreamWriter_dealloc(PyObject* self) {
   PyObject_ClearWeakRefs(self);
+  // Note: The destructor of an unclosed writer closes the stream, and this may
+  // run the subscribers' callbacks while an exception is being raised.
+  auto py_exception = PyErr_FetchRaisedException();
   PyStreamWriter_fields(self).~Fields();
+  if (py_exception != nullptr) {
+    PyErr_RestoreRaisedException(std::move(py_exception));
+  }
   Py_TYPE(self)->tp_free(self);
 }
 
-- 
2.43.0


From f57512498063b05add1011f5f5d28a0d7e497850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:05 +0000
Subject: [PATCH 19/22] fix: a stream iterator must not be advanced by two
 threads at once

---
 py/koladata/functor/parallel/py_stream.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/py/koladata/functor/parallel/py_stream.cc b/py/koladata/functor/parallel/py_stream.cc
index 17a7867..b332201 100644
--- a/py/koladata/functor/parallel/py_stream.cc
+++ b/py/koladata/functor/parallel/py_stream.cc
@@ -111,6 +111,7 @@ struct PyStreamYieldAllObject final {
   struct Fields {
     StreamReaderPtr stream_reader;
     absl::Time deadline;
+    bool running = false;  // Guarded by GIL.
   };
   Fields fields;
   PyObject* weakrefs;
@@ -234,6 +235,12 @@ PyObject* PyStreamYieldAll_iternext(PyObject* self) {
   DCheckPyGIL();
   PyCancellationScope cancellation_scope;
   auto& fields = PyStreamYieldAll_fields(self);
+  // Note: `stream_reader` is not thread-safe, and we use it without holding GIL.
+  if (fields.running) {
+    PyErr_SetString(PyExc_ValueError, "iterator is already executing");
+    return nullptr;
+  }
+  fields.running = true;
   auto try_read_result = fields.stream_reader->TryRead();
   if (try_read_result.empty()) {
     ReleasePyGIL guard;
@@ -252,6 +259,7 @@ PyObject* PyStreamYieldAll_iternext(PyObject* self) {
       try_read_result = fields.stream_reader->TryRead();
     }
   }
+  fields.running = false;
   if (auto* item = try_read_result.item()) {
     return WrapAsPyQValue(TypedValue(*item));
   }
-- 
2.43.0


From 2776bb8e58feecbfde0b965f32e4bdfe7ae31113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:09 +0000
Subject: [PATCH 20/22] fix: LruCache.clear() must release the GIL before it
 waits for the lock

---
 py/koladata/caching/clib.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/koladata/caching/clib.cc b/py/koladata/caching/clib.cc
index 79aa5b4..8237636 100644
--- a/py/koladata/caching/clib.cc
+++ b/py/koladata/caching/clib.cc
@@ -193,6 +193,7 @@ class LruCacheWrapper {
   }
 
   void Clear() {
+    arolla::python::ReleasePyGIL guard;
     absl::MutexLock lock(mutex_);
     cache_.Clear();
   }
-- 
2.43.0


From 2ded7ae6a5139b3f2baeb8a2b5c69c2d693507b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:10 +0000
Subject: [PATCH 21/22] fix: kd.dump keeps the existing file when the value
 cannot be serialized

---
 py/koladata/functions/s11n.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/py/koladata/functions/s11n.py b/py/koladata/functions/s11n.py
index 42f610c..5e704f4 100644
--- a/py/koladata/functions/s11n.py
+++ b/py/koladata/functions/s11n.py
@@ -170,12 +170,13 @@ def dump(
   """
   if fs is None:
     fs = file_io.get_default_file_system_interaction()
-  if fs.exists(path):
-    if overwrite:
-      fs.remove(path)
-    else:
-      raise ValueError(f'File {path} already exists.')
+  exists = fs.exists(path)
+  if exists and not overwrite:
+    raise ValueError(f'File {path} already exists.')
+  # Serialize first: if that fails, the existing file must survive.
   data = dumps(x, riegeli_options=riegeli_options)
+  if exists:
+    fs.remove(path)
   with fs.open(path, 'wb') as f:
     f.write(data)
 
-- 
2.43.0


From a69d59ccea0aafc873b3021b742685b94e738377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:34 +0000
Subject: [PATCH 22/22] fix: kd.print frees the text it wrote and leaves no
 exception behind

---
 py/koladata/base/init.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/py/koladata/base/init.cc b/py/koladata/base/init.cc
index 59ddaf8..be24727 100644
--- a/py/koladata/base/init.cc
+++ b/py/koladata/base/init.cc
@@ -27,12 +27,15 @@ void SetPrintCallback() {
   ::koladata::internal::GetSharedPrinter().SetPrintCallback(
       [](absl::string_view message) {
         arolla::python::AcquirePyGIL gil_guard;
-        PyObject* str =
-            PyUnicode_FromStringAndSize(message.data(), message.size());
+        // A message may be cut in the middle of a UTF-8 sequence.
+        PyObject* str = PyUnicode_DecodeUTF8(message.data(), message.size(),
+                                             /*errors=*/"replace");
         if (str == nullptr) {
+          PyErr_Clear();
           return;
         }
         PySys_FormatStdout("%U", str);
+        Py_DECREF(str);
       });
 }
 
-- 
2.43.0

