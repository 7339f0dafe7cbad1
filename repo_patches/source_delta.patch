From e50496d659380c0c13b85a6c09cc35bbd833c2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 01/85] fix: TraceState.update on a full state keeps the state
 instead of emptying it

---
 opentelemetry-api/src/opentelemetry/trace/span.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/opentelemetry-api/src/opentelemetry/trace/span.py b/opentelemetry-api/src/opentelemetry/trace/span.py
index 6e54dfc..5acb807 100644
--- a/opentelemetry-api/src/opentelemetry/trace/span.py
+++ b/opentelemetry-api/src/opentelemetry/trace/span.py
@@ -329,6 +329,13 @@ class TraceState(typing.Mapping[str, str]):
                 "Invalid key/value pair (%s, %s) found.", key, value
             )
             return self
+        # There can be a maximum of 32 pairs
+        if (
+            key not in self._dict
+            and len(self) >= _TRACECONTEXT_MAXIMUM_TRACESTATE_KEYS
+        ):
+            _logger.warning("There can't be more 32 key/value pairs.")
+            return self
         prev_state = self._dict.copy()
         prev_state.pop(key, None)
         new_state = [(key, value), *prev_state.items()]
-- 
2.43.0


From 3e409b507dd9d81448615a94a529334206a9f457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 02/85] fix: propagators inject nothing for any invalid span
 context

---
 .../src/opentelemetry/trace/propagation/tracecontext.py       | 2 +-
 .../src/opentelemetry/propagators/b3/__init__.py              | 4 ++--
 .../src/opentelemetry/propagators/jaeger/__init__.py          | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py b/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py
index af16a08..12180bc 100644
--- a/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py
+++ b/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py
@@ -98,7 +98,7 @@ class TraceContextTextMapPropagator(textmap.TextMapPropagator):
         """
         span = trace.get_current_span(context)
         span_context = span.get_span_context()
-        if span_context == trace.INVALID_SPAN_CONTEXT:
+        if not span_context.is_valid:
             return
         traceparent_string = f"00-{format_trace_id(span_context.trace_id)}-{format_span_id(span_context.span_id)}-{span_context.trace_flags:02x}"
         setter.set(carrier, self._TRACEPARENT_HEADER_NAME, traceparent_string)
diff --git a/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py b/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
index 1bbc361..875e9cf 100644
--- a/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
+++ b/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
@@ -136,7 +136,7 @@ class B3MultiFormat(TextMapPropagator):
         span = trace.get_current_span(context=context)
 
         span_context = span.get_span_context()
-        if span_context == trace.INVALID_SPAN_CONTEXT:
+        if not span_context.is_valid:
             return
 
         sampled = (trace.TraceFlags.SAMPLED & span_context.trace_flags) != 0
@@ -175,7 +175,7 @@ class B3SingleFormat(B3MultiFormat):
         span = trace.get_current_span(context=context)
 
         span_context = span.get_span_context()
-        if span_context == trace.INVALID_SPAN_CONTEXT:
+        if not span_context.is_valid:
             return
 
         sampled = (trace.TraceFlags.SAMPLED & span_context.trace_flags) != 0
diff --git a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
index 6b6eb8f..0889951 100644
--- a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
+++ b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
@@ -77,7 +77,7 @@ class JaegerPropagator(TextMapPropagator):
     ) -> None:
         span = trace.get_current_span(context=context)
         span_context = span.get_span_context()
-        if span_context == trace.INVALID_SPAN_CONTEXT:
+        if not span_context.is_valid:
             return
 
         # Non-recording spans do not have a parent
-- 
2.43.0


From 44dc3068d98b154ff1f29905a296daf6f2b465d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 03/85] fix: traceparent with a trailing newline is not
 well-formed

---
 .../src/opentelemetry/trace/propagation/tracecontext.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py b/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py
index 12180bc..fd7afdd 100644
--- a/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py
+++ b/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py
@@ -29,7 +29,7 @@ class TraceContextTextMapPropagator(textmap.TextMapPropagator):
     _TRACESTATE_HEADER_NAME = "tracestate"
     _TRACEPARENT_HEADER_FORMAT = (
         "^[ \t]*([0-9a-f]{2})-([0-9a-f]{32})-([0-9a-f]{16})-([0-9a-f]{2})"
-        + "(-.*)?[ \t]*$"
+        + "(-.*)?[ \t]*\\Z"
     )
     _TRACEPARENT_HEADER_FORMAT_RE = re.compile(_TRACEPARENT_HEADER_FORMAT)
 
-- 
2.43.0


From cfadb7c3b3e0863441982413260650db2710b8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 04/85] fix: B3 headers with all-zero or non-ASCII ids leave
 the context unchanged

---
 .../src/opentelemetry/propagators/b3/__init__.py       | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py b/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
index 875e9cf..d181288 100644
--- a/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
+++ b/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
@@ -43,8 +43,8 @@ class B3MultiFormat(TextMapPropagator):
     SAMPLED_KEY = "x-b3-sampled"
     FLAGS_KEY = "x-b3-flags"
     _SAMPLE_PROPAGATE_VALUES = {"1", "True", "true", "d"}
-    _trace_id_regex = re_compile(r"[\da-fA-F]{16}|[\da-fA-F]{32}")
-    _span_id_regex = re_compile(r"[\da-fA-F]{16}")
+    _trace_id_regex = re_compile(r"[0-9a-fA-F]{16}|[0-9a-fA-F]{32}")
+    _span_id_regex = re_compile(r"[0-9a-fA-F]{16}")
 
     def extract(
         self,
@@ -105,6 +105,12 @@ class B3MultiFormat(TextMapPropagator):
 
         trace_id = int(trace_id, 16)
         span_id = int(span_id, 16)
+        if (
+            trace_id == trace.INVALID_TRACE_ID
+            or span_id == trace.INVALID_SPAN_ID
+        ):
+            return context
+
         options = 0
         # The b3 spec provides no defined behavior for both sample and
         # flag values set. Since the setting of at least one implies
-- 
2.43.0


From f94cdd3341cc69687ada37aeeba69d29c17c677f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 05/85] fix: Jaeger headers with negative or oversized ids
 leave the current span unchanged

---
 .../propagators/jaeger/__init__.py            | 21 ++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
index 0889951..9036905 100644
--- a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
+++ b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
@@ -53,21 +53,18 @@ class JaegerPropagator(TextMapPropagator):
         context = self._extract_baggage(getter, carrier, context)
 
         trace_id, span_id, flags = _parse_trace_id_header(header)
-        if (
-            trace_id == trace.INVALID_TRACE_ID
-            or span_id == trace.INVALID_SPAN_ID
-        ):
+        span_context = trace.SpanContext(
+            trace_id=trace_id,
+            span_id=span_id,
+            is_remote=True,
+            trace_flags=trace.TraceFlags(flags & trace.TraceFlags.SAMPLED),
+        )
+        if not span_context.is_valid:
             return context
 
-        span = trace.NonRecordingSpan(
-            trace.SpanContext(
-                trace_id=trace_id,
-                span_id=span_id,
-                is_remote=True,
-                trace_flags=trace.TraceFlags(flags & trace.TraceFlags.SAMPLED),
-            )
+        return trace.set_span_in_context(
+            trace.NonRecordingSpan(span_context), context
         )
-        return trace.set_span_in_context(span, context)
 
     def inject(
         self,
-- 
2.43.0


From 2a9897cab77bd9457af6dbd7b09935d8cec9c60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 06/85] fix: Jaeger baggage keeps names, values and white
 space, and tolerates empty headers

---
 .../src/opentelemetry/propagators/jaeger/__init__.py        | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
index 9036905..5c809f2 100644
--- a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
+++ b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
@@ -117,9 +117,11 @@ class JaegerPropagator(TextMapPropagator):
         ]
         for key in baggage_keys:
             value = _extract_first_element(getter.get(carrier, key))
+            if value is None:
+                continue
             context = baggage.set_baggage(
-                key.replace(self.BAGGAGE_PREFIX, ""),
-                urllib.parse.unquote(value).strip(),
+                key[len(self.BAGGAGE_PREFIX) :],
+                urllib.parse.unquote(value.strip()),
                 context=context,
             )
         return context
-- 
2.43.0


From 5c3cf712ed3f92eda874a8ffd5c8c3d1f2bb0b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 07/85] fix: W3C baggage keeps encoded white space around
 values

---
 .../src/opentelemetry/baggage/propagation/__init__.py         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py b/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py
index 49fb378..2923ff4 100644
--- a/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py
@@ -93,8 +93,8 @@ class W3CBaggagePropagator(textmap.TextMapPropagator):
                 _logger.warning("Invalid baggage entry: `%s`", entry)
                 continue
 
-            name = unquote_plus(name).strip()
-            value = unquote_plus(value).strip()
+            name = unquote_plus(name.strip())
+            value = unquote_plus(value.strip())
 
             context = set_baggage(
                 name,
-- 
2.43.0


From 142a754a6f7acd1739ad0e871dfa1db5e75ba340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 08/85] fix: starting a span does not modify the caller's links

---
 .../src/opentelemetry/sdk/trace/__init__.py      | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
index 3ac4580..e34af7e 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
@@ -829,13 +829,17 @@ class Span(trace_api.Span, ReadableSpan):
         valid_links = []
         for link in links:
             if link and _is_valid_link(link.context, link.attributes):
-                # pylint: disable=protected-access
-                link._attributes = BoundedAttributes(
-                    self._limits.max_link_attributes,
-                    link.attributes,
-                    max_value_len=self._limits.max_attribute_length,
+                # The caller may use the same link for several spans.
+                valid_links.append(
+                    trace_api.Link(
+                        context=link.context,
+                        attributes=BoundedAttributes(
+                            self._limits.max_link_attributes,
+                            link.attributes,
+                            max_value_len=self._limits.max_attribute_length,
+                        ),
+                    )
                 )
-                valid_links.append(link)
 
         return BoundedList.from_seq(self._limits.max_links, valid_links)
 
-- 
2.43.0


From a5ce74d586f1372a5f0bdf177c116b83b281748e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:34 +0000
Subject: [PATCH 09/85] fix: an out-of-range sampler argument in the
 environment falls back to the default ratio

---
 opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py
index fb6990a..95a6ce1 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py
@@ -436,10 +436,12 @@ def _get_from_env_or_default() -> Sampler:
     if trace_sampler in ("traceidratio", "parentbased_traceidratio"):
         try:
             rate = float(os.getenv(OTEL_TRACES_SAMPLER_ARG))
+            return _KNOWN_SAMPLERS[trace_sampler](rate)
         except (ValueError, TypeError):
-            _logger.warning("Could not convert TRACES_SAMPLER_ARG to float.")
-            rate = 1.0
-        return _KNOWN_SAMPLERS[trace_sampler](rate)
+            _logger.warning(
+                "Could not convert TRACES_SAMPLER_ARG to a valid ratio."
+            )
+            return _KNOWN_SAMPLERS[trace_sampler](1.0)
 
     return _KNOWN_SAMPLERS[trace_sampler]
 
-- 
2.43.0


From 6bd2c2dca99ae34ea15fa32bd23bb99ecf95c983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 10/85] fix: an interrupted export of the simple span processor
 does not leak its context

---
 .../src/opentelemetry/sdk/trace/export/__init__.py             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
index 47d1769..07296f0 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
@@ -114,7 +114,8 @@ class SimpleSpanProcessor(SpanProcessor):
         # pylint: disable=broad-exception-caught
         except Exception:
             logger.exception("Exception while exporting Span.")
-        detach(token)
+        finally:
+            detach(token)
 
     def shutdown(self) -> None:
         self.span_exporter.shutdown()
-- 
2.43.0


From 4b8f2917dddcdc79e2744e095379d70dbf7dec2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 11/85] fix: an interrupted export of the simple log processor
 does not leak its context

---
 .../src/opentelemetry/sdk/_logs/_internal/export/__init__.py   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
index 434dc74..b479824 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
@@ -130,7 +130,8 @@ class SimpleLogRecordProcessor(LogRecordProcessor):
             self._exporter.export((log_data,))
         except Exception:  # pylint: disable=broad-exception-caught
             _logger.exception("Exception while exporting logs.")
-        detach(token)
+        finally:
+            detach(token)
 
     def shutdown(self):
         self._shutdown = True
-- 
2.43.0


From ef80239a5baf1fcd3c6b5b4ac46b652d3fa88311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 12/85] fix: force_flush racing with shutdown of a batch
 processor does not wait for nobody

---
 .../src/opentelemetry/sdk/_logs/_internal/export/__init__.py  | 4 ++++
 .../src/opentelemetry/sdk/trace/export/__init__.py            | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
index b479824..11c416f 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
@@ -371,6 +371,10 @@ class BatchLogRecordProcessor(LogRecordProcessor):
             return True
 
         with self._condition:
+            if self._shutdown:
+                # a concurrent shutdown may have completed since the check
+                # above, nobody would answer the request anymore
+                return True
             flush_request = self._get_or_create_flush_request()
             self._condition.notify_all()
 
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
index 07296f0..e441a99 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
@@ -386,6 +386,10 @@ class BatchSpanProcessor(SpanProcessor):
             return True
 
         with self.condition:
+            if self.done:
+                # a concurrent shutdown may have completed since the check
+                # above, nobody would answer the request anymore
+                return True
             flush_request = self._get_or_create_flush_request()
             # signal the worker thread to flush and wait for it to finish
             self.condition.notify_all()
-- 
2.43.0


From 3e6e59f370bb695b76a48435d56e4ad1eae02fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 13/85] fix: the JSON form of a log record without a timestamp
 does not fail

---
 .../src/opentelemetry/sdk/_logs/_internal/__init__.py         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index 302ca1e..1f0fd73 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -230,7 +230,9 @@ class LogRecord(APILogRecord):
                     dict(self.attributes) if bool(self.attributes) else None
                 ),
                 "dropped_attributes": self.dropped_attributes,
-                "timestamp": ns_to_iso_str(self.timestamp),
+                "timestamp": ns_to_iso_str(self.timestamp)
+                if self.timestamp is not None
+                else None,
                 "observed_timestamp": ns_to_iso_str(self.observed_timestamp),
                 "trace_id": (
                     f"0x{format_trace_id(self.trace_id)}"
-- 
2.43.0


From a28df6e9e1b098c0798726daf6eca44e42085422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 14/85] fix: the JSON form of a log record with bytes in its
 body does not fail

---
 .../src/opentelemetry/sdk/_logs/_internal/__init__.py          | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index 1f0fd73..f0d66a3 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -15,6 +15,7 @@ from __future__ import annotations
 
 import abc
 import atexit
+import base64
 import concurrent.futures
 import json
 import logging
@@ -248,6 +249,8 @@ class LogRecord(APILogRecord):
                 "resource": json.loads(self.resource.to_json()),
             },
             indent=indent,
+            # bytes are valid in a body but unknown to JSON
+            default=lambda value: base64.b64encode(value).decode("ascii"),
         )
 
     @property
-- 
2.43.0


From f9373202f7585165e98f24460d384b88c091378e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 15/85] fix: a log record whose attributes were all dropped
 counts them

---
 .../src/opentelemetry/sdk/_logs/_internal/__init__.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index f0d66a3..72b7463 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -255,7 +255,7 @@ class LogRecord(APILogRecord):
 
     @property
     def dropped_attributes(self) -> int:
-        if self.attributes:
+        if isinstance(self.attributes, BoundedAttributes):
             return self.attributes.dropped
         return 0
 
-- 
2.43.0


From bd76155aac6e84cc236220d9f44a33aef94873e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:21 +0000
Subject: [PATCH 16/85] fix: metric points keep the attributes they were
 recorded with, lists included

---
 .../sdk/metrics/_internal/_view_instrument_match.py  | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
index be81d70..ec8ff26 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
@@ -102,11 +102,21 @@ class _ViewInstrumentMatch:
         else:
             attributes = {}
 
-        aggr_key = frozenset(attributes.items())
+        try:
+            aggr_key = frozenset(attributes.items())
+        except TypeError:
+            # lists are valid attribute values but they can't be hashed
+            attributes = {
+                key: tuple(value) if isinstance(value, list) else value
+                for key, value in attributes.items()
+            }
+            aggr_key = frozenset(attributes.items())
 
         if aggr_key not in self._attributes_aggregation:
             with self._lock:
                 if aggr_key not in self._attributes_aggregation:
+                    # the caller may change its attributes afterwards
+                    attributes = dict(attributes)
                     if not isinstance(
                         self._view._aggregation, DefaultAggregation
                     ):
-- 
2.43.0


From 41b123261f230e9417f6ac9b470ee17c2e081625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:21 +0000
Subject: [PATCH 17/85] fix: an explicit bucket histogram aggregation without
 boundaries uses each instrument's own

---
 .../opentelemetry/sdk/metrics/_internal/aggregation.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index 8443d95..4f5dada 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -1387,18 +1387,16 @@ class ExplicitBucketHistogramAggregation(Aggregation):
                 AggregationTemporality.CUMULATIVE
             )
 
-        if self._boundaries is None:
-            self._boundaries = (
-                instrument._advisory.explicit_bucket_boundaries
-                or _DEFAULT_EXPLICIT_BUCKET_HISTOGRAM_AGGREGATION_BOUNDARIES
-            )
+        boundaries = self._boundaries
+        if boundaries is None and isinstance(instrument, Histogram):
+            boundaries = instrument._advisory.explicit_bucket_boundaries
 
         return _ExplicitBucketHistogramAggregation(
             attributes,
             instrument_aggregation_temporality,
             start_time_unix_nano,
             reservoir_factory(_ExplicitBucketHistogramAggregation),
-            self._boundaries,
+            boundaries,
             self._record_min_max,
         )
 
-- 
2.43.0


From 6c4d7a0794a10c5db2c40e6602db74b78696e39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:21 +0000
Subject: [PATCH 18/85] fix: a cumulative exponential histogram whose earlier
 intervals had only zeros or only one sign

---
 .../sdk/metrics/_internal/aggregation.py      | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index 4f5dada..b405be8 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -968,6 +968,17 @@ class _ExponentialBucketHistogramAggregation(_Aggregation[HistogramPoint]):
                 if scale is None and self._previous_scale is not None:
                     scale = self._previous_scale
 
+                # Without any positive or negative value the scale means nothing
+                # and must not reduce the resolution of the other buckets.
+                if not any(value_positive.counts) and not any(
+                    value_negative.counts
+                ):
+                    scale = self._previous_scale
+                elif not any(self._previous_value_positive.counts) and not any(
+                    self._previous_value_negative.counts
+                ):
+                    self._previous_scale = scale
+
                 min_scale = min(self._previous_scale, scale)
 
                 low_positive, high_positive = (
@@ -1145,16 +1156,17 @@ class _ExponentialBucketHistogramAggregation(_Aggregation[HistogramPoint]):
             if current_bucket == 0:
                 continue
 
-            # Not considering the case where len(previous_buckets) == 0. This
-            # would not happen because self._previous_point is only assigned to
-            # an ExponentialHistogramDataPoint object if self._count != 0.
-
             current_index = current_buckets.index_base + current_bucket_index
             if current_index > current_buckets.index_end:
                 current_index -= len(current_buckets.counts)
 
             index = current_index >> current_change
 
+            if len(previous_buckets) == 0:
+                previous_buckets.index_start = index
+                previous_buckets.index_end = index
+                previous_buckets.index_base = index
+
             if index < previous_buckets.index_start:
                 span = previous_buckets.index_end - index
 
-- 
2.43.0


From a7c3c23abcef4b24607e2bca58be754ce9d027b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:35 +0000
Subject: [PATCH 19/85] fix: an exemplar does not keep the trace identity of
 the measurement it replaces, nor later changes to the attributes

---
 .../sdk/metrics/_internal/exemplar/exemplar_reservoir.py  | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
index 22d1ee9..9a0fcf2 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
@@ -108,12 +108,18 @@ class ExemplarBucket:
         """
         self.__value = value
         self.__time_unix_nano = time_unix_nano
-        self.__attributes = attributes
+        # the caller may change its attributes afterwards
+        self.__attributes = (
+            dict(attributes) if isinstance(attributes, dict) else attributes
+        )
         span = trace.get_current_span(context)
         if span != INVALID_SPAN:
             span_context = span.get_span_context()
             self.__span_id = span_context.span_id
             self.__trace_id = span_context.trace_id
+        else:
+            self.__span_id = None
+            self.__trace_id = None
 
         self.__offered = True
 
-- 
2.43.0


From 04e7600da15d85240d6ef8cc739b2b74d87d2088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:36 +0000
Subject: [PATCH 20/85] fix: zero measurements of an exponential histogram are
 offered as exemplars

---
 .../src/opentelemetry/sdk/metrics/_internal/aggregation.py       | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index b405be8..1ed9c78 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -734,6 +734,7 @@ class _ExponentialBucketHistogramAggregation(_Aggregation[HistogramPoint]):
                 if self._count == self._zero_count:
                     self._scale = 0
 
+                self._sample_exemplar(measurement, should_sample_exemplar)
                 return
 
             if measurement_value > 0:
-- 
2.43.0


From 758a4fefbdf9c8eb4fc8b04cb570655a8ef44423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 21/85] fix: recording NaN in an exponential histogram does not
 raise nor damage the point

---
 .../src/opentelemetry/sdk/metrics/_internal/aggregation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index 1ed9c78..35850dd 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -19,7 +19,7 @@ from bisect import bisect_left
 from enum import IntEnum
 from functools import partial
 from logging import getLogger
-from math import inf
+from math import inf, isnan
 from threading import Lock
 from typing import (
     Callable,
@@ -713,6 +713,11 @@ class _ExponentialBucketHistogramAggregation(_Aggregation[HistogramPoint]):
     ) -> None:
         # pylint: disable=too-many-branches,too-many-statements, too-many-locals
 
+        if isnan(measurement.value):
+            # there is no bucket for it
+            _logger.warning("NaN is ignored by an exponential histogram.")
+            return
+
         with self._lock:
             if self._value_positive is None:
                 self._value_positive = Buckets()
-- 
2.43.0


From 53e1f06f5a51afd4c3600aa5d0eb4aeb913be41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:44 +0000
Subject: [PATCH 22/85] fix: an exponential histogram that must be rescaled for
 a value next to a boundary does not raise

---
 .../src/opentelemetry/sdk/metrics/_internal/aggregation.py    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index 35850dd..7ed1f2b 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -791,7 +791,9 @@ class _ExponentialBucketHistogramAggregation(_Aggregation[HistogramPoint]):
                     self._mapping.scale - scale_change
                 )
 
-                index = self._mapping.map_to_index(measurement_value)
+                # Mapping the value again may yield another index, out of the
+                # buckets: close to a boundary it depends on the rounding.
+                index >>= scale_change
 
             self._scale = self._mapping.scale
 
-- 
2.43.0


From 266f2a28d3a696868a639a4e5d27c34abccb5431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:34 +0000
Subject: [PATCH 23/85] fix: a collection that times out in a callback does not
 leave observations for the next one

---
 .../sdk/metrics/_internal/instrument.py       |  3 +-
 .../metrics/_internal/measurement_consumer.py | 28 +++++++++++--------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
index b01578f..73c78b2 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
@@ -143,7 +143,8 @@ class _Asynchronous:
                         time_unix_nano=time_ns(),
                         instrument=self,
                         context=api_measurement.context or get_current(),
-                        attributes=api_measurement.attributes,
+                        # the callback may use its attributes again
+                        attributes=dict(api_measurement.attributes or {}),
                     )
             except Exception:  # pylint: disable=broad-exception-caught
                 _logger.exception(
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
index c651033..9cbc0b9 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
@@ -113,6 +113,10 @@ class SynchronousMeasurementConsumer(MeasurementConsumer):
 
             default_timeout_ns = 10000 * 1e6
 
+            # consumed only once all the callbacks were in time: otherwise the
+            # observations of this collection would be added to the next one's
+            observed = []
+
             for async_instrument in self._async_instruments:
                 remaining_time = deadline_ns - time_ns()
 
@@ -127,18 +131,20 @@ class SynchronousMeasurementConsumer(MeasurementConsumer):
                         "Timed out while executing callback"
                     )
 
-                for measurement in measurements:
-                    should_sample_exemplar = (
-                        self._sdk_config.exemplar_filter.should_sample(
-                            measurement.value,
-                            measurement.time_unix_nano,
-                            measurement.attributes,
-                            measurement.context,
-                        )
-                    )
-                    metric_reader_storage.consume_measurement(
-                        measurement, should_sample_exemplar
+                observed.extend(measurements)
+
+            for measurement in observed:
+                should_sample_exemplar = (
+                    self._sdk_config.exemplar_filter.should_sample(
+                        measurement.value,
+                        measurement.time_unix_nano,
+                        measurement.attributes,
+                        measurement.context,
                     )
+                )
+                metric_reader_storage.consume_measurement(
+                    measurement, should_sample_exemplar
+                )
 
             result = self._reader_storages[metric_reader].collect()
 
-- 
2.43.0


From bcf784059a9c9c0d2832ca503dd06f791c29e68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 24/85] fix: creating an instrument while another thread
 creates the same one, or after a refused one, does not raise KeyError

---
 .../sdk/metrics/_internal/__init__.py         | 108 +++++++++++++-----
 1 file changed, 81 insertions(+), 27 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
index faa0959..df40676 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
@@ -104,8 +104,13 @@ class Meter(APIMeter):
                 status,
             )
         if status.already_registered:
+            # absent while another thread creates it, or if its creation failed
             with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+                instrument = self._instrument_id_instrument.get(
+                    status.instrument_id
+                )
+            if instrument is not None:
+                return instrument
 
         instrument = _Counter(
             name,
@@ -116,8 +121,9 @@ class Meter(APIMeter):
         )
 
         with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+            return self._instrument_id_instrument.setdefault(
+                status.instrument_id, instrument
+            )
 
     def create_up_down_counter(
         self, name, unit="", description=""
@@ -138,8 +144,13 @@ class Meter(APIMeter):
                 status,
             )
         if status.already_registered:
+            # absent while another thread creates it, or if its creation failed
             with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+                instrument = self._instrument_id_instrument.get(
+                    status.instrument_id
+                )
+            if instrument is not None:
+                return instrument
 
         instrument = _UpDownCounter(
             name,
@@ -150,8 +161,9 @@ class Meter(APIMeter):
         )
 
         with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+            return self._instrument_id_instrument.setdefault(
+                status.instrument_id, instrument
+            )
 
     def create_observable_counter(
         self,
@@ -176,8 +188,13 @@ class Meter(APIMeter):
                 status,
             )
         if status.already_registered:
+            # absent while another thread creates it, or if its creation failed
             with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+                instrument = self._instrument_id_instrument.get(
+                    status.instrument_id
+                )
+            if instrument is not None:
+                return instrument
 
         instrument = _ObservableCounter(
             name,
@@ -188,11 +205,16 @@ class Meter(APIMeter):
             description,
         )
 
-        self._measurement_consumer.register_asynchronous_instrument(instrument)
-
         with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+            registered = self._instrument_id_instrument.setdefault(
+                status.instrument_id, instrument
+            )
+
+        if registered is instrument:
+            self._measurement_consumer.register_asynchronous_instrument(
+                instrument
+            )
+        return registered
 
     def create_histogram(
         self,
@@ -243,8 +265,13 @@ class Meter(APIMeter):
                 status,
             )
         if status.already_registered:
+            # absent while another thread creates it, or if its creation failed
             with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+                instrument = self._instrument_id_instrument.get(
+                    status.instrument_id
+                )
+            if instrument is not None:
+                return instrument
 
         instrument = _Histogram(
             name,
@@ -255,8 +282,9 @@ class Meter(APIMeter):
             explicit_bucket_boundaries_advisory,
         )
         with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+            return self._instrument_id_instrument.setdefault(
+                status.instrument_id, instrument
+            )
 
     def create_gauge(self, name, unit="", description="") -> APIGauge:
         status = self._register_instrument(name, _Gauge, unit, description)
@@ -273,8 +301,13 @@ class Meter(APIMeter):
                 status,
             )
         if status.already_registered:
+            # absent while another thread creates it, or if its creation failed
             with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+                instrument = self._instrument_id_instrument.get(
+                    status.instrument_id
+                )
+            if instrument is not None:
+                return instrument
 
         instrument = _Gauge(
             name,
@@ -285,8 +318,9 @@ class Meter(APIMeter):
         )
 
         with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+            return self._instrument_id_instrument.setdefault(
+                status.instrument_id, instrument
+            )
 
     def create_observable_gauge(
         self, name, callbacks=None, unit="", description=""
@@ -307,8 +341,13 @@ class Meter(APIMeter):
                 status,
             )
         if status.already_registered:
+            # absent while another thread creates it, or if its creation failed
             with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+                instrument = self._instrument_id_instrument.get(
+                    status.instrument_id
+                )
+            if instrument is not None:
+                return instrument
 
         instrument = _ObservableGauge(
             name,
@@ -319,11 +358,16 @@ class Meter(APIMeter):
             description,
         )
 
-        self._measurement_consumer.register_asynchronous_instrument(instrument)
-
         with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+            registered = self._instrument_id_instrument.setdefault(
+                status.instrument_id, instrument
+            )
+
+        if registered is instrument:
+            self._measurement_consumer.register_asynchronous_instrument(
+                instrument
+            )
+        return registered
 
     def create_observable_up_down_counter(
         self, name, callbacks=None, unit="", description=""
@@ -344,8 +388,13 @@ class Meter(APIMeter):
                 status,
             )
         if status.already_registered:
+            # absent while another thread creates it, or if its creation failed
             with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+                instrument = self._instrument_id_instrument.get(
+                    status.instrument_id
+                )
+            if instrument is not None:
+                return instrument
 
         instrument = _ObservableUpDownCounter(
             name,
@@ -356,11 +405,16 @@ class Meter(APIMeter):
             description,
         )
 
-        self._measurement_consumer.register_asynchronous_instrument(instrument)
-
         with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+            registered = self._instrument_id_instrument.setdefault(
+                status.instrument_id, instrument
+            )
+
+        if registered is instrument:
+            self._measurement_consumer.register_asynchronous_instrument(
+                instrument
+            )
+        return registered
 
 
 def _get_exemplar_filter(exemplar_filter: str) -> ExemplarFilter:
-- 
2.43.0


From 11587855ba221538b5cdc7984da18c8fba0d5b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:35 +0000
Subject: [PATCH 25/85] fix: instruments whose units and descriptions only join
 to the same text are different

---
 .../src/opentelemetry/metrics/_internal/__init__.py          | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
index 2319d8d..8de6b55 100644
--- a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
@@ -252,8 +252,9 @@ class Meter(ABC):
         the registered instrument advisory.
         """
 
-        instrument_id = ",".join(
-            [name.strip().lower(), type_.__name__, unit, description]
+        # not joined by a separator: units and descriptions may contain any
+        instrument_id = repr(
+            (name.strip().lower(), type_.__name__, unit, description)
         )
 
         already_registered = False
-- 
2.43.0


From 8cbaa7ef228907953c51aa57582efba6c7af941a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:35 +0000
Subject: [PATCH 26/85] fix: a callback that creates an observable instrument
 does not hang the collection

---
 .../sdk/metrics/_internal/measurement_consumer.py            | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
index 9cbc0b9..4e3d25a 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
@@ -15,7 +15,7 @@
 # pylint: disable=unused-import
 
 from abc import ABC, abstractmethod
-from threading import Lock
+from threading import RLock
 from time import time_ns
 from typing import Iterable, List, Mapping, Optional
 
@@ -60,7 +60,8 @@ class SynchronousMeasurementConsumer(MeasurementConsumer):
         self,
         sdk_config: "opentelemetry.sdk.metrics._internal.SdkConfiguration",
     ) -> None:
-        self._lock = Lock()
+        # reentrant: a callback may create asynchronous instruments
+        self._lock = RLock()
         self._sdk_config = sdk_config
         # should never be mutated
         self._reader_storages: Mapping[
-- 
2.43.0


From e30d79fccde66c2cc3f65465143def31c2bed113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 27/85] fix: the fixed size exemplar reservoir can be used with
 an explicit bucket histogram

---
 .../sdk/metrics/_internal/exemplar/exemplar_reservoir.py       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
index 9a0fcf2..117969a 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
@@ -169,7 +169,8 @@ class FixedSizeExemplarReservoirABC(ExemplarReservoir):
     """Abstract class for a reservoir with fixed size."""
 
     def __init__(self, size: int, **kwargs) -> None:
-        super().__init__(**kwargs)
+        # kwargs are the other parameters of the aggregation
+        super().__init__()
         self._size: int = size
         self._reservoir_storage: Mapping[int, ExemplarBucket] = defaultdict(
             ExemplarBucket
-- 
2.43.0


From e0c88522ee38b088e025bd1b7dbf3be005bcd432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 28/85] fix: a measurement made in an explicit empty context is
 not attributed to the current span

---
 .../sdk/metrics/_internal/instrument.py            | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
index 73c78b2..befea78 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
@@ -142,7 +142,11 @@ class _Asynchronous:
                         api_measurement.value,
                         time_unix_nano=time_ns(),
                         instrument=self,
-                        context=api_measurement.context or get_current(),
+                        context=(
+                            api_measurement.context
+                            if api_measurement.context is not None
+                            else get_current()
+                        ),
                         # the callback may use its attributes again
                         attributes=dict(api_measurement.attributes or {}),
                     )
@@ -175,7 +179,7 @@ class Counter(_Synchronous, APICounter):
                 amount,
                 time_unix_nano,
                 self,
-                context or get_current(),
+                context if context is not None else get_current(),
                 attributes,
             )
         )
@@ -199,7 +203,7 @@ class UpDownCounter(_Synchronous, APIUpDownCounter):
                 amount,
                 time_unix_nano,
                 self,
-                context or get_current(),
+                context if context is not None else get_current(),
                 attributes,
             )
         )
@@ -267,7 +271,7 @@ class Histogram(_Synchronous, APIHistogram):
                 amount,
                 time_unix_nano,
                 self,
-                context or get_current(),
+                context if context is not None else get_current(),
                 attributes,
             )
         )
@@ -291,7 +295,7 @@ class Gauge(_Synchronous, APIGauge):
                 amount,
                 time_unix_nano,
                 self,
-                context or get_current(),
+                context if context is not None else get_current(),
                 attributes,
             )
         )
-- 
2.43.0


From 38b53b5d05a7b5ec47dadf6573790a669f5ee1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 29/85] fix: measuring while another thread measures or
 collects does not corrupt the exemplar reservoir

---
 .../sdk/metrics/_internal/aggregation.py          | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index 7ed1f2b..6e76275 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -193,7 +193,8 @@ class _SumAggregation(_Aggregation[Sum]):
 
             self._value = self._value + measurement.value
 
-        self._sample_exemplar(measurement, should_sample_exemplar)
+            # under the lock: reservoirs are not thread-safe
+            self._sample_exemplar(measurement, should_sample_exemplar)
 
     def collect(
         self,
@@ -418,7 +419,8 @@ class _LastValueAggregation(_Aggregation[GaugePoint]):
         with self._lock:
             self._value = measurement.value
 
-        self._sample_exemplar(measurement, should_sample_exemplar)
+            # under the lock: reservoirs are not thread-safe
+            self._sample_exemplar(measurement, should_sample_exemplar)
 
     def collect(
         self,
@@ -433,8 +435,7 @@ class _LastValueAggregation(_Aggregation[GaugePoint]):
                 return None
             value = self._value
             self._value = None
-
-        exemplars = self._collect_exemplars()
+            exemplars = self._collect_exemplars()
 
         return NumberDataPoint(
             attributes=self._attributes,
@@ -524,7 +525,8 @@ class _ExplicitBucketHistogramAggregation(_Aggregation[HistogramPoint]):
 
             self._value[bisect_left(self._boundaries, measurement_value)] += 1
 
-        self._sample_exemplar(measurement, should_sample_exemplar)
+            # under the lock: reservoirs are not thread-safe
+            self._sample_exemplar(measurement, should_sample_exemplar)
 
     def collect(
         self,
@@ -827,7 +829,8 @@ class _ExponentialBucketHistogramAggregation(_Aggregation[HistogramPoint]):
             # in _ExplicitBucketHistogramAggregation.aggregate
             value.increment_bucket(bucket_index)
 
-        self._sample_exemplar(measurement, should_sample_exemplar)
+            # under the lock: reservoirs are not thread-safe
+            self._sample_exemplar(measurement, should_sample_exemplar)
 
     def collect(
         self,
-- 
2.43.0


From a391b114696d5ea2c4aa5b50b895a3aee519405e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 30/85] fix: a point of an attribute set first measured during
 a collection does not start after its time

---
 .../sdk/metrics/_internal/_view_instrument_match.py       | 1 +
 .../opentelemetry/sdk/metrics/_internal/aggregation.py    | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
index ec8ff26..57f143e 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
@@ -151,6 +151,7 @@ class _ViewInstrumentMatch:
         data_points: List[DataPointT] = []
         with self._lock:
             for aggregation in self._attributes_aggregation.values():
+                aggregation._not_started_after(collection_start_nanos)
                 data_point = aggregation.collect(
                     collection_aggregation_temporality, collection_start_nanos
                 )
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index 6e76275..435dc25 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -120,6 +120,14 @@ class _Aggregation(ABC, Generic[_DataPointVarT]):
     ) -> Optional[_DataPointVarT]:
         pass
 
+    def _not_started_after(self, collection_start_nano: int) -> None:
+        """Another thread may create the aggregation while a collection that
+        has started before is running: the points do not start after their time.
+        """
+        if getattr(self, "_start_time_unix_nano", 0) > collection_start_nano:
+            self._start_time_unix_nano = collection_start_nano
+            self._previous_collection_start_nano = collection_start_nano
+
     def _collect_exemplars(self) -> Sequence[Exemplar]:
         """Returns the collected exemplars.
 
-- 
2.43.0


From 55cfe7b7137983ad83cb184c8a7698d448908b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 31/85] fix: return the logger provider's result from
 EventLoggerProvider.force_flush

---
 opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
index ae16302..1180c7d 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
@@ -86,4 +86,4 @@ class EventLoggerProvider(APIEventLoggerProvider):
         self._logger_provider.shutdown()
 
     def force_flush(self, timeout_millis: int = 30000) -> bool:
-        self._logger_provider.force_flush(timeout_millis)
+        return self._logger_provider.force_flush(timeout_millis)
-- 
2.43.0


From f9e7089529888813c08a35adfbd94970f1660e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 32/85] fix: keep an event's own trace flags when they are not
 sampled

---
 opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
index 1180c7d..30c5b46 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
@@ -55,7 +55,11 @@ class EventLogger(APIEventLogger):
             observed_timestamp=None,
             trace_id=event.trace_id or span_context.trace_id,
             span_id=event.span_id or span_context.span_id,
-            trace_flags=event.trace_flags or span_context.trace_flags,
+            trace_flags=(
+                event.trace_flags
+                if event.trace_flags is not None
+                else span_context.trace_flags
+            ),
             severity_text=None,
             severity_number=event.severity_number or SeverityNumber.INFO,
             body=event.body,
-- 
2.43.0


From c40e20cdf9a32c4e876834bfb6fc7940c37be6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 33/85] fix: do not raise into the application from
 LoggingHandler.emit

---
 .../src/opentelemetry/sdk/_logs/_internal/__init__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index 72b7463..a06d79d 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -559,9 +559,14 @@ class LoggingHandler(logging.Handler):
 
         The record is translated to OTel format, and then sent across the pipeline.
         """
-        logger = get_logger(record.name, logger_provider=self._logger_provider)
-        if not isinstance(logger, NoOpLogger):
-            logger.emit(self._translate(record))
+        try:
+            logger = get_logger(
+                record.name, logger_provider=self._logger_provider
+            )
+            if not isinstance(logger, NoOpLogger):
+                logger.emit(self._translate(record))
+        except Exception:  # pylint: disable=broad-exception-caught
+            self.handleError(record)
 
     def flush(self) -> None:
         """
-- 
2.43.0


From 757738536ef8da7600b9adc7a51dd9281bb7d4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 34/85] fix: do not export the logs a
 SimpleLogRecordProcessor's own export causes

---
 .../sdk/_logs/_internal/export/__init__.py          | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
index 11c416f..fe0e7b0 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
@@ -120,8 +120,21 @@ class SimpleLogRecordProcessor(LogRecordProcessor):
     def __init__(self, exporter: LogExporter):
         self._exporter = exporter
         self._shutdown = False
+        self._emitting = threading.local()
 
     def emit(self, log_data: LogData):
+        # Exporting a record can log, and a LoggingHandler can bring that log
+        # back here: without this, a failing exporter recurses until the stack
+        # is exhausted.
+        if getattr(self._emitting, "active", False):
+            return
+        self._emitting.active = True
+        try:
+            self._emit(log_data)
+        finally:
+            self._emitting.active = False
+
+    def _emit(self, log_data: LogData):
         if self._shutdown:
             _logger.warning("Processor is already shutdown, ignoring call")
             return
-- 
2.43.0


From 7509f15a544c4edecbc1bc963e70b3bb3968d7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 35/85] fix: skip an error handler plugin that cannot be loaded

---
 .../sdk/error_handler/__init__.py             | 23 +++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/error_handler/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/error_handler/__init__.py
index 3e0e778..04815d0 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/error_handler/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/error_handler/__init__.py
@@ -120,22 +120,21 @@ class GlobalErrorHandler:
         )
 
         for error_handler_entry_point in error_handler_entry_points:
-            error_handler_class = error_handler_entry_point.load()
+            try:
+                error_handler_class = error_handler_entry_point.load()
 
-            if issubclass(error_handler_class, exc_value.__class__):
-                try:
+                if issubclass(error_handler_class, exc_value.__class__):
                     error_handler_class()._handle(exc_value)
                     plugin_handled = True
 
-                # pylint: disable=broad-exception-caught
-                except Exception as error_handling_error:
-                    logger.exception(
-                        "%s error while handling error"
-                        " %s by error handler %s",
-                        error_handling_error.__class__.__name__,
-                        exc_value.__class__.__name__,
-                        error_handler_class.__name__,
-                    )
+            # pylint: disable=broad-exception-caught
+            except Exception as error_handling_error:
+                logger.exception(
+                    "%s error while handling error %s by error handler %s",
+                    error_handling_error.__class__.__name__,
+                    exc_value.__class__.__name__,
+                    error_handler_entry_point.name,
+                )
 
         if not plugin_handled:
             _DefaultErrorHandler()._handle(exc_value)
-- 
2.43.0


From 9ddd94c008c24ef74f8feacb1c0055cf23f99ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 36/85] fix: make Resource equality agree with its hash

---
 .../src/opentelemetry/sdk/resources/__init__.py    | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
index 752b906..ef90e2b 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
@@ -287,15 +287,15 @@ class Resource:
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, Resource):
             return False
-        return (
-            self._attributes == other._attributes
-            and self._schema_url == other._schema_url
-        )
+        # Python compares 1, 1.0 and True as equal, which are different
+        # attribute values and have different hashes here.
+        return self._key() == other._key()
 
     def __hash__(self) -> int:
-        return hash(
-            f"{dumps(self._attributes.copy(), sort_keys=True)}|{self._schema_url}"  # type: ignore
-        )
+        return hash(self._key())
+
+    def _key(self) -> str:
+        return f"{dumps(self._attributes.copy(), sort_keys=True)}|{self._schema_url}"  # type: ignore
 
     def to_json(self, indent: Optional[int] = 4) -> str:
         attributes: MutableMapping[str, AttributeValue] = dict(
-- 
2.43.0


From 36ef97a63704534fc816a8472162aa2599c229c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 37/85] fix: merge detected resources in the order their
 detectors are listed

---
 .../src/opentelemetry/sdk/resources/__init__.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
index ef90e2b..00da0c8 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
@@ -189,15 +189,16 @@ class Resource:
         if not attributes:
             attributes = {}
 
-        otel_experimental_resource_detectors = {"otel"}.union(
-            {
-                otel_experimental_resource_detector.strip()
-                for otel_experimental_resource_detector in environ.get(
-                    OTEL_EXPERIMENTAL_RESOURCE_DETECTORS, ""
-                ).split(",")
-                if otel_experimental_resource_detector
-            }
+        # In the order listed, so that which detector wins does not change
+        # from one process to the next.
+        otel_experimental_resource_detectors = dict.fromkeys(
+            otel_experimental_resource_detector.strip()
+            for otel_experimental_resource_detector in environ.get(
+                OTEL_EXPERIMENTAL_RESOURCE_DETECTORS, ""
+            ).split(",")
+            if otel_experimental_resource_detector
         )
+        otel_experimental_resource_detectors.setdefault("otel")
 
         resource_detectors: List[ResourceDetector] = []
 
-- 
2.43.0


From 3397ff5d90d15a5a687de08de374df76b29682f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 38/85] fix: set the default service name whatever the detected
 schema URL

---
 opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
index 00da0c8..524ef97 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
@@ -234,7 +234,9 @@ class Resource:
             if process_executable_name:
                 default_service_name += ":" + process_executable_name
             resource = resource.merge(
-                Resource({SERVICE_NAME: default_service_name}, schema_url)
+                Resource(
+                    {SERVICE_NAME: default_service_name}, resource.schema_url
+                )
             )
         return resource
 
-- 
2.43.0


From a465543ddea43581ba8b5b160a199908d92c8fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 39/85] fix: do not wait for resource detectors past their
 timeout

---
 .../src/opentelemetry/sdk/resources/__init__.py             | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
index 524ef97..470c9a9 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
@@ -514,7 +514,8 @@ def get_aggregated_resources(
     """
     detectors_merged_resource = initial_resource or Resource.create()
 
-    with concurrent.futures.ThreadPoolExecutor(max_workers=4) as executor:
+    executor = concurrent.futures.ThreadPoolExecutor(max_workers=4)
+    try:
         futures = [executor.submit(detector.detect) for detector in detectors]
         for detector_ind, future in enumerate(futures):
             detector = detectors[detector_ind]
@@ -540,5 +541,8 @@ def get_aggregated_resources(
                 detectors_merged_resource = detectors_merged_resource.merge(
                     detected_resource
                 )
+    finally:
+        # do not wait for the detectors that took too long
+        executor.shutdown(wait=False)
 
     return detectors_merged_resource
-- 
2.43.0


From da3b8f0f01b0302c15a217cc561550fdec1f9d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 40/85] fix: keep the parent's span context in spans of
 NoOpTracer

---
 opentelemetry-api/src/opentelemetry/trace/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-api/src/opentelemetry/trace/__init__.py b/opentelemetry-api/src/opentelemetry/trace/__init__.py
index 73087e9..6b834f5 100644
--- a/opentelemetry-api/src/opentelemetry/trace/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/trace/__init__.py
@@ -469,6 +469,12 @@ class NoOpTracer(Tracer):
         record_exception: bool = True,
         set_status_on_exception: bool = True,
     ) -> "Span":
+        # Without an SDK the trace context of the parent is still propagated.
+        parent_span_context = get_current_span(context).get_span_context()
+        if isinstance(parent_span_context, SpanContext) and (
+            parent_span_context.is_valid
+        ):
+            return NonRecordingSpan(parent_span_context)
         return INVALID_SPAN
 
     @_agnosticcontextmanager
@@ -484,7 +490,8 @@ class NoOpTracer(Tracer):
         set_status_on_exception: bool = True,
         end_on_exit: bool = True,
     ) -> Iterator["Span"]:
-        yield INVALID_SPAN
+        with use_span(self.start_span(name, context)) as span:
+            yield span
 
 
 @deprecated(version="1.9.0", reason="You should use NoOpTracer")  # type: ignore
-- 
2.43.0


From 9ab0e32a883b057889ee452bd1ee6ecf8e43cb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 41/85] fix: keep the attributes of meters obtained before the
 provider is set

---
 .../metrics/_internal/__init__.py             | 38 ++++++++++++++++---
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
index 8de6b55..e09a7db 100644
--- a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
@@ -151,6 +151,19 @@ class NoOpMeterProvider(MeterProvider):
         return NoOpMeter(name, version=version, schema_url=schema_url)
 
 
+def _get_real_meter(
+    meter_provider: MeterProvider,
+    name: str,
+    version: Optional[str],
+    schema_url: Optional[str],
+    attributes: Optional[Attributes],
+) -> "Meter":
+    if attributes is None:
+        # providers written before the argument was added do not accept it
+        return meter_provider.get_meter(name, version, schema_url)
+    return meter_provider.get_meter(name, version, schema_url, attributes)
+
+
 class _ProxyMeterProvider(MeterProvider):
     def __init__(self) -> None:
         self._lock = Lock()
@@ -166,11 +179,20 @@ class _ProxyMeterProvider(MeterProvider):
     ) -> "Meter":
         with self._lock:
             if self._real_meter_provider is not None:
-                return self._real_meter_provider.get_meter(
-                    name, version, schema_url
+                return _get_real_meter(
+                    self._real_meter_provider,
+                    name,
+                    version,
+                    schema_url,
+                    attributes,
                 )
 
-            meter = _ProxyMeter(name, version=version, schema_url=schema_url)
+            meter = _ProxyMeter(
+                name,
+                version=version,
+                schema_url=schema_url,
+                attributes=attributes,
+            )
             self._meters.append(meter)
             return meter
 
@@ -506,8 +528,10 @@ class _ProxyMeter(Meter):
         name: str,
         version: Optional[str] = None,
         schema_url: Optional[str] = None,
+        attributes: Optional[Attributes] = None,
     ) -> None:
         super().__init__(name, version=version, schema_url=schema_url)
+        self._attributes = attributes
         self._lock = Lock()
         self._instruments: List[_ProxyInstrumentT] = []
         self._real_meter: Optional[Meter] = None
@@ -518,8 +542,12 @@ class _ProxyMeter(Meter):
         Creates a real backing meter for this instance and notifies all created
         instruments so they can create real backing instruments.
         """
-        real_meter = meter_provider.get_meter(
-            self._name, self._version, self._schema_url
+        real_meter = _get_real_meter(
+            meter_provider,
+            self._name,
+            self._version,
+            self._schema_url,
+            self._attributes,
         )
 
         with self._lock:
-- 
2.43.0


From ca0e2efecfa5517e364de55988fe4e39f5a76e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 42/85] fix: set the meter provider even if a proxied
 instrument is invalid

---
 .../src/opentelemetry/metrics/_internal/__init__.py        | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
index e09a7db..c08fd1d 100644
--- a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
@@ -555,7 +555,12 @@ class _ProxyMeter(Meter):
             # notify all proxy instruments of the new meter so they can create
             # real instruments to back themselves
             for instrument in self._instruments:
-                instrument.on_meter_set(real_meter)
+                try:
+                    instrument.on_meter_set(real_meter)
+                # An instrument that cannot be created must not keep the
+                # others, or the provider, from being set.
+                except Exception:  # pylint: disable=broad-exception-caught
+                    _logger.exception("Failed to create a proxied instrument")
 
     def create_counter(
         self,
-- 
2.43.0


From 79375c2530be7d7f2e82ba6c7aebdca6f14e87d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 43/85] fix: parse the ratio of a sampler whose configured name
 has spaces around

---
 .../src/opentelemetry/sdk/_configuration/__init__.py             | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_configuration/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_configuration/__init__.py
index c1852ed..59e44a8 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_configuration/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_configuration/__init__.py
@@ -321,6 +321,7 @@ def _import_sampler(sampler_name: str) -> Sampler | None:
     if not sampler_name:
         return None
     try:
+        sampler_name = sampler_name.strip()
         sampler_factory = _import_sampler_factory(sampler_name)
         arg = None
         if sampler_name in ("traceidratio", "parentbased_traceidratio"):
-- 
2.43.0


From 7df5fb1bfaf6b3b8279d396a608b21778e16ac84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 44/85] fix: keep the thread of the periodic metric reader
 running when a collection fails

---
 .../opentelemetry/sdk/metrics/_internal/export/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index 52c6833..fb384ab 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -528,6 +528,11 @@ class PeriodicExportingMetricReader(MetricReader):
                     interval_secs,
                     exc_info=True,
                 )
+            except Exception:  # pylint: disable=broad-exception-caught
+                _logger.exception(
+                    "Metric collection failed. Will try again after %s seconds",
+                    interval_secs,
+                )
         # one last collection below before shutting down completely
         try:
             self.collect(timeout_millis=self._export_interval_millis)
@@ -536,6 +541,8 @@ class PeriodicExportingMetricReader(MetricReader):
                 "Metric collection timed out.",
                 exc_info=True,
             )
+        except Exception:  # pylint: disable=broad-exception-caught
+            _logger.exception("Metric collection failed.")
 
     def _receive_metrics(
         self,
-- 
2.43.0


From 90deab9126934d6c96bb9cb256b27724c124050e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 45/85] fix: let the periodic metric reader's last collection
 take the export timeout, and make it without an interval too

---
 .../opentelemetry/sdk/metrics/_internal/export/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index fb384ab..8184321 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -534,8 +534,11 @@ class PeriodicExportingMetricReader(MetricReader):
                     interval_secs,
                 )
         # one last collection below before shutting down completely
+        self._collect_last()
+
+    def _collect_last(self) -> None:
         try:
-            self.collect(timeout_millis=self._export_interval_millis)
+            self.collect(timeout_millis=self._export_timeout_millis)
         except MetricsTimeoutError:
             _logger.warning(
                 "Metric collection timed out.",
@@ -575,6 +578,8 @@ class PeriodicExportingMetricReader(MetricReader):
         self._shutdown_event.set()
         if self._daemon_thread:
             self._daemon_thread.join(timeout=(deadline_ns - time_ns()) / 10**9)
+        elif self._collect is not None:
+            self._collect_last()
         self._exporter.shutdown(timeout=(deadline_ns - time_ns()) / 10**6)
 
     def force_flush(self, timeout_millis: float = 10_000) -> bool:
-- 
2.43.0


From a0cb948b3422d35337b9a9ac23ffc24865ef778e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 46/85] fix: make flushes of the periodic metric reader wait
 for metrics being exported, and export nothing after shutdown

---
 .../sdk/metrics/_internal/export/__init__.py  | 56 ++++++++++++++++---
 1 file changed, 47 insertions(+), 9 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index 8184321..73e56af 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -21,7 +21,7 @@ from enum import Enum
 from logging import getLogger
 from os import environ, linesep
 from sys import stdout
-from threading import Event, Lock, RLock, Thread
+from threading import TIMEOUT_MAX, Event, Lock, RLock, Thread
 from time import time_ns
 from typing import IO, Callable, Iterable, Optional
 
@@ -459,6 +459,9 @@ class PeriodicExportingMetricReader(MetricReader):
         # execution of MetricExporter.export()
         # https://github.com/open-telemetry/opentelemetry-specification/blob/main/specification/metrics/sdk.md#exportbatch
         self._export_lock = Lock()
+        # held from the start of a collection to the end of its export
+        self._collect_lock = Lock()
+        self._exporter_shutdown = False
 
         self._exporter = exporter
         if export_interval_millis is None:
@@ -510,6 +513,11 @@ class PeriodicExportingMetricReader(MetricReader):
             )
 
     def _at_fork_reinit(self):
+        if self._shutdown_event.is_set():
+            return
+        # another thread may have held them
+        self._export_lock = Lock()
+        self._collect_lock = Lock()
         self._daemon_thread = Thread(
             name="OtelPeriodicExportingMetricReader",
             target=self._ticker,
@@ -521,7 +529,7 @@ class PeriodicExportingMetricReader(MetricReader):
         interval_secs = self._export_interval_millis / 1e3
         while not self._shutdown_event.wait(interval_secs):
             try:
-                self.collect(timeout_millis=self._export_timeout_millis)
+                self._collect_and_export(self._export_timeout_millis)
             except MetricsTimeoutError:
                 _logger.warning(
                     "Metric collection timed out. Will try again after %s seconds",
@@ -536,9 +544,9 @@ class PeriodicExportingMetricReader(MetricReader):
         # one last collection below before shutting down completely
         self._collect_last()
 
-    def _collect_last(self) -> None:
+    def _collect_last(self, wait_millis: float = math.inf) -> None:
         try:
-            self.collect(timeout_millis=self._export_timeout_millis)
+            self._collect_and_export(self._export_timeout_millis, wait_millis)
         except MetricsTimeoutError:
             _logger.warning(
                 "Metric collection timed out.",
@@ -547,6 +555,23 @@ class PeriodicExportingMetricReader(MetricReader):
         except Exception:  # pylint: disable=broad-exception-caught
             _logger.exception("Metric collection failed.")
 
+    def _collect_and_export(
+        self, timeout_millis: float, wait_millis: float = math.inf
+    ) -> None:
+        # a flush must not return while another thread still holds metrics
+        # that it has collected and not exported yet
+        lock = self._collect_lock
+        if not lock.acquire(
+            timeout=min(max(wait_millis / 10**3, 0), TIMEOUT_MAX)
+        ):
+            raise MetricsTimeoutError(
+                "Timed out while waiting for another collection"
+            )
+        try:
+            self.collect(timeout_millis=timeout_millis)
+        finally:
+            lock.release()
+
     def _receive_metrics(
         self,
         metrics_data: MetricsData,
@@ -557,9 +582,14 @@ class PeriodicExportingMetricReader(MetricReader):
         # pylint: disable=broad-exception-caught,invalid-name
         try:
             with self._export_lock:
-                self._exporter.export(
-                    metrics_data, timeout_millis=timeout_millis
-                )
+                if self._exporter_shutdown:
+                    _logger.warning(
+                        "Metrics are not exported after shutdown"
+                    )
+                else:
+                    self._exporter.export(
+                        metrics_data, timeout_millis=timeout_millis
+                    )
         except Exception:
             _logger.exception("Exception while exporting metrics")
         detach(token)
@@ -579,10 +609,18 @@ class PeriodicExportingMetricReader(MetricReader):
         if self._daemon_thread:
             self._daemon_thread.join(timeout=(deadline_ns - time_ns()) / 10**9)
         elif self._collect is not None:
-            self._collect_last()
+            self._collect_last(timeout_millis)
+        # no export may start from here on, and none should be interrupted
+        lock = self._export_lock
+        acquired = lock.acquire(
+            timeout=min(max((deadline_ns - time_ns()) / 10**9, 0), TIMEOUT_MAX)
+        )
+        self._exporter_shutdown = True
+        if acquired:
+            lock.release()
         self._exporter.shutdown(timeout=(deadline_ns - time_ns()) / 10**6)
 
     def force_flush(self, timeout_millis: float = 10_000) -> bool:
-        super().force_flush(timeout_millis=timeout_millis)
+        self._collect_and_export(timeout_millis, timeout_millis)
         self._exporter.force_flush(timeout_millis=timeout_millis)
         return True
-- 
2.43.0


From 28feae0a15d882f55e2a0d7a23e84c812437b7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 47/85] fix: take an instrument without unit or description for
 the one with empty ones

---
 .../src/opentelemetry/metrics/_internal/__init__.py        | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
index c08fd1d..b5cca3e 100644
--- a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
@@ -276,7 +276,12 @@ class Meter(ABC):
 
         # not joined by a separator: units and descriptions may contain any
         instrument_id = repr(
-            (name.strip().lower(), type_.__name__, unit, description)
+            (
+                name.strip().lower(),
+                type_.__name__,
+                unit or "",
+                description or "",
+            )
         )
 
         already_registered = False
-- 
2.43.0


From 97f71d3ac9c51061b3309164e471a5770e22e576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:43 +0000
Subject: [PATCH 48/85] fix: send the trace state of span links in OTLP

---
 .../otlp/proto/common/_internal/trace_encoder/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py
index 388d229..e69dd43 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py
@@ -159,6 +159,7 @@ def _encode_links(links: Sequence[Link]) -> Sequence[PB2SPan.Link]:
             encoded_link = PB2SPan.Link(
                 trace_id=_encode_trace_id(link.context.trace_id),
                 span_id=_encode_span_id(link.context.span_id),
+                trace_state=_encode_link_trace_state(link.context),
                 attributes=_encode_attributes(link.attributes),
                 dropped_attributes_count=link.dropped_attributes,
                 flags=_span_flags(link.context),
@@ -167,6 +168,13 @@ def _encode_links(links: Sequence[Link]) -> Sequence[PB2SPan.Link]:
     return pb2_links
 
 
+def _encode_link_trace_state(context: SpanContext) -> Optional[str]:
+    trace_state = context.trace_state
+    if isinstance(trace_state, TraceState):
+        return _encode_trace_state(trace_state)
+    return None
+
+
 def _encode_status(status: Status) -> Optional[PB2Status]:
     pb2_status = None
     if status is not None:
-- 
2.43.0


From eb6e2e550546365db71f2c3370d85ecfa37ea1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:43 +0000
Subject: [PATCH 49/85] fix: encode log records without trace identity or
 severity in OTLP

---
 .../proto/common/_internal/_log_encoder/__init__.py  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
index 9cd4484..82eb20b 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
@@ -40,26 +40,30 @@ def encode_logs(batch: Sequence[LogData]) -> ExportLogsServiceRequest:
 def _encode_log(log_data: LogData) -> PB2LogRecord:
     span_id = (
         None
-        if log_data.log_record.span_id == 0
+        if not log_data.log_record.span_id
         else _encode_span_id(log_data.log_record.span_id)
     )
     trace_id = (
         None
-        if log_data.log_record.trace_id == 0
+        if not log_data.log_record.trace_id
         else _encode_trace_id(log_data.log_record.trace_id)
     )
+    trace_flags = log_data.log_record.trace_flags
+    severity_number = log_data.log_record.severity_number
     body = log_data.log_record.body
     return PB2LogRecord(
         time_unix_nano=log_data.log_record.timestamp,
         observed_time_unix_nano=log_data.log_record.observed_timestamp,
         span_id=span_id,
         trace_id=trace_id,
-        flags=int(log_data.log_record.trace_flags),
+        flags=int(trace_flags) if trace_flags is not None else None,
         body=_encode_value(body, allow_null=True),
         severity_text=log_data.log_record.severity_text,
         attributes=_encode_attributes(log_data.log_record.attributes),
         dropped_attributes_count=log_data.log_record.dropped_attributes,
-        severity_number=log_data.log_record.severity_number.value,
+        severity_number=severity_number.value
+        if severity_number is not None
+        else None,
     )
 
 
-- 
2.43.0


From 3c20fc040bf5b1aa21fd211a9941549120fbdb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:43 +0000
Subject: [PATCH 50/85] fix: log the text of message objects that no log body
 can hold

---
 .../src/opentelemetry/sdk/_logs/_internal/__init__.py    | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index a06d79d..4a864da 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -22,6 +22,7 @@ import logging
 import threading
 import traceback
 import warnings
+from collections.abc import Mapping, Sequence
 from os import environ
 from threading import Lock
 from time import time_ns
@@ -529,7 +530,13 @@ class LoggingHandler(logging.Handler):
             # For more background, see: https://github.com/open-telemetry/opentelemetry-python/pull/4216
             if not record.args and not isinstance(record.msg, str):
                 # no args are provided so it's *mostly* safe to use the message template as the body
-                body = record.msg
+                if record.msg is None or isinstance(
+                    record.msg, (bool, int, float, bytes, Sequence, Mapping)
+                ):
+                    body = record.msg
+                else:
+                    # e.g. an exception, which no exporter could encode
+                    body = str(record.msg)
             else:
                 body = record.getMessage()
 
-- 
2.43.0


From d1aef0efa64004bfa32efec2d6b0d7c62602818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:44 +0000
Subject: [PATCH 51/85] fix: send no metrics over OTLP/HTTP after shutdown

---
 .../otlp/proto/http/metric_exporter/__init__.py     | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
index 00f429e..ac1fb7b 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
@@ -164,6 +164,7 @@ class OTLPMetricExporter(MetricExporter, OTLPMetricExporterMixin):
         self._common_configuration(
             preferred_temporality, preferred_aggregation
         )
+        self._shutdown = False
 
     def _export(self, serialized_data: bytes):
         data = serialized_data
@@ -197,6 +198,12 @@ class OTLPMetricExporter(MetricExporter, OTLPMetricExporterMixin):
         timeout_millis: float = 10_000,
         **kwargs,
     ) -> MetricExportResult:
+        # After the call to Shutdown subsequent calls to Export are
+        # not allowed and should return a Failure result.
+        if self._shutdown:
+            _logger.warning("Exporter already shutdown, ignoring batch")
+            return MetricExportResult.FAILURE
+
         serialized_data = encode_metrics(metrics_data)
         for delay in _create_exp_backoff_generator(
             max_value=self._MAX_RETRY_TIMEOUT
@@ -226,7 +233,11 @@ class OTLPMetricExporter(MetricExporter, OTLPMetricExporterMixin):
         return MetricExportResult.FAILURE
 
     def shutdown(self, timeout_millis: float = 30_000, **kwargs) -> None:
-        pass
+        if self._shutdown:
+            _logger.warning("Exporter already shutdown, ignoring call")
+            return
+        self._session.close()
+        self._shutdown = True
 
     @property
     def _exporting(self) -> str:
-- 
2.43.0


From 99da803962e04c6e4049ec425013d344bdf46c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:44 +0000
Subject: [PATCH 52/85] fix: make no further OTLP/HTTP attempts after shutdown

---
 .../exporter/otlp/proto/http/_log_exporter/__init__.py          | 2 +-
 .../exporter/otlp/proto/http/metric_exporter/__init__.py        | 2 +-
 .../exporter/otlp/proto/http/trace_exporter/__init__.py         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py
index 21b8773..2f7cf9c 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py
@@ -161,7 +161,7 @@ class OTLPLogExporter(LogExporter):
         for delay in _create_exp_backoff_generator(
             max_value=self._MAX_RETRY_TIMEOUT
         ):
-            if delay == self._MAX_RETRY_TIMEOUT:
+            if delay == self._MAX_RETRY_TIMEOUT or self._shutdown:
                 return LogExportResult.FAILURE
 
             resp = self._export(serialized_data)
diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
index ac1fb7b..944e9ea 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
@@ -208,7 +208,7 @@ class OTLPMetricExporter(MetricExporter, OTLPMetricExporterMixin):
         for delay in _create_exp_backoff_generator(
             max_value=self._MAX_RETRY_TIMEOUT
         ):
-            if delay == self._MAX_RETRY_TIMEOUT:
+            if delay == self._MAX_RETRY_TIMEOUT or self._shutdown:
                 return MetricExportResult.FAILURE
 
             resp = self._export(serialized_data.SerializeToString())
diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py
index 7bcf4b4..8fde7ad 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py
@@ -153,7 +153,7 @@ class OTLPSpanExporter(SpanExporter):
         for delay in _create_exp_backoff_generator(
             max_value=self._MAX_RETRY_TIMEOUT
         ):
-            if delay == self._MAX_RETRY_TIMEOUT:
+            if delay == self._MAX_RETRY_TIMEOUT or self._shutdown:
                 return SpanExportResult.FAILURE
 
             resp = self._export(serialized_data)
-- 
2.43.0


From 812c514e77f09a4f4d1c7ddc6aa73628549a9133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:44 +0000
Subject: [PATCH 53/85] fix: accept every documented compression from the
 environment in the OTLP/gRPC exporters

---
 .../src/opentelemetry/exporter/otlp/proto/grpc/exporter.py      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
index 4be75c5..e25b3d0 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
@@ -83,7 +83,9 @@ ExportResultT = TypeVar("ExportResultT")
 
 _ENVIRON_TO_COMPRESSION = {
     None: None,
+    "none": Compression.NoCompression,
     "gzip": Compression.Gzip,
+    "deflate": Compression.Deflate,
 }
 
 
-- 
2.43.0


From d4b4d9d7c8ccac00eb15cb886a346f6bd41ed1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:44 +0000
Subject: [PATCH 54/85] fix: make no OTLP/gRPC call after shutdown, and end a
 shutdown that could not wait for an export

---
 .../src/opentelemetry/exporter/otlp/proto/grpc/exporter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
index e25b3d0..7d45d90 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
@@ -296,6 +296,8 @@ class OTLPExporterMixin(
                 return self._result.FAILURE
 
             with self._export_lock:
+                if self._shutdown:
+                    return self._result.FAILURE
                 try:
                     self._client.Export(
                         request=self._translate_data(data),
@@ -359,10 +361,11 @@ class OTLPExporterMixin(
             logger.warning("Exporter already shutdown, ignoring call")
             return
         # wait for the last export if any
-        self._export_lock.acquire(timeout=timeout_millis / 1e3)
+        acquired = self._export_lock.acquire(timeout=timeout_millis / 1e3)
         self._shutdown = True
         self._channel.close()
-        self._export_lock.release()
+        if acquired:
+            self._export_lock.release()
 
     @property
     @abstractmethod
-- 
2.43.0


From 42f3a78edef5636575a641efb1eef2459f97d4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:44 +0000
Subject: [PATCH 55/85] fix: use the certificate of the signal when a https
 endpoint overrides insecure in the OTLP/gRPC exporters

---
 .../exporter/otlp/proto/grpc/_log_exporter/__init__.py      | 6 ++----
 .../exporter/otlp/proto/grpc/metric_exporter/__init__.py    | 6 ++----
 .../exporter/otlp/proto/grpc/trace_exporter/__init__.py     | 6 ++----
 3 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/_log_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/_log_exporter/__init__.py
index 8f62989..2a36961 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/_log_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/_log_exporter/__init__.py
@@ -66,10 +66,8 @@ class OTLPLogExporter(
             if insecure is not None:
                 insecure = insecure.lower() == "true"
 
-        if (
-            not insecure
-            and environ.get(OTEL_EXPORTER_OTLP_LOGS_CERTIFICATE) is not None
-        ):
+        # A https endpoint takes precedence over insecure
+        if environ.get(OTEL_EXPORTER_OTLP_LOGS_CERTIFICATE) is not None:
             credentials = _get_credentials(
                 credentials,
                 OTEL_EXPORTER_OTLP_LOGS_CERTIFICATE,
diff --git a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/metric_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/metric_exporter/__init__.py
index 8580dbb..b821bac 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/metric_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/metric_exporter/__init__.py
@@ -111,10 +111,8 @@ class OTLPMetricExporter(
             if insecure is not None:
                 insecure = insecure.lower() == "true"
 
-        if (
-            not insecure
-            and environ.get(OTEL_EXPORTER_OTLP_METRICS_CERTIFICATE) is not None
-        ):
+        # A https endpoint takes precedence over insecure
+        if environ.get(OTEL_EXPORTER_OTLP_METRICS_CERTIFICATE) is not None:
             credentials = _get_credentials(
                 credentials,
                 OTEL_EXPORTER_OTLP_METRICS_CERTIFICATE,
diff --git a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/trace_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/trace_exporter/__init__.py
index c78c1b8..cd4c8f9 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/trace_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/trace_exporter/__init__.py
@@ -99,10 +99,8 @@ class OTLPSpanExporter(
             if insecure is not None:
                 insecure = insecure.lower() == "true"
 
-        if (
-            not insecure
-            and environ.get(OTEL_EXPORTER_OTLP_TRACES_CERTIFICATE) is not None
-        ):
+        # A https endpoint takes precedence over insecure
+        if environ.get(OTEL_EXPORTER_OTLP_TRACES_CERTIFICATE) is not None:
             credentials = _get_credentials(
                 credentials,
                 OTEL_EXPORTER_OTLP_TRACES_CERTIFICATE,
-- 
2.43.0


From 836808d5e3951dd2a811037f5000bfe2226c7127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:16 +0000
Subject: [PATCH 56/85] fix: skip metrics Prometheus cannot hold instead of
 failing the scrape

---
 .../src/opentelemetry/exporter/prometheus/__init__.py  | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
index 475cfb1..86e9495 100644
--- a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
+++ b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
@@ -224,6 +224,12 @@ class _CustomCollector:
                     metrics.append(metric)
 
         for metric in metrics:
+            if not isinstance(metric.data, (Sum, Gauge, Histogram)):
+                _logger.warning(
+                    "Unsupported metric data. %s", type(metric.data)
+                )
+                continue
+
             label_values_data_points = []
             label_keys_data_points = []
             values = []
@@ -358,10 +364,6 @@ class _CustomCollector:
                         ),
                         sum_value=value["sum"],
                     )
-                else:
-                    _logger.warning(
-                        "Unsupported metric data. %s", type(metric.data)
-                    )
 
     # pylint: disable=no-self-use
     def _check_value(self, value: Union[int, float, str, Sequence]) -> str:
-- 
2.43.0


From 10394267371f2dd8167a904d3c3ff0cda0acbb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:16 +0000
Subject: [PATCH 57/85] fix: keep the values of attributes that share one
 Prometheus label

---
 .../exporter/prometheus/__init__.py           | 26 +++++++++++--------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
index 86e9495..4e7844d 100644
--- a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
+++ b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
@@ -241,12 +241,9 @@ class _CustomCollector:
             metric_unit = map_unit(metric.unit)
 
             for number_data_point in metric.data.data_points:
-                label_keys = []
-                label_values = []
-
-                for key, value in sorted(number_data_point.attributes.items()):
-                    label_keys.append(sanitize_attribute(key))
-                    label_values.append(self._check_value(value))
+                labels = self._create_labels(number_data_point.attributes)
+                label_keys = list(labels.keys())
+                label_values = list(labels.values())
 
                 per_metric_family_ids.append(
                     "|".join(
@@ -372,15 +369,22 @@ class _CustomCollector:
             return dumps(value, default=str)
         return str(value)
 
+    def _create_labels(self, attributes: Attributes) -> Dict[str, str]:
+        """Sanitize the attribute names according to Prometheus rule. The values of
+        attributes whose names become equal are concatenated, in the order of the
+        original names"""
+        labels: Dict[str, str] = {}
+        for key, value in sorted(attributes.items()):
+            key = sanitize_attribute(key)
+            value = self._check_value(value)
+            labels[key] = f"{labels[key]};{value}" if key in labels else value
+        return labels
+
     def _create_info_metric(
         self, name: str, description: str, attributes: Dict[str, str]
     ) -> InfoMetricFamily:
         """Create an Info Metric Family with list of attributes"""
-        # sanitize the attribute names according to Prometheus rule
-        attributes = {
-            sanitize_attribute(key): self._check_value(value)
-            for key, value in attributes.items()
-        }
+        attributes = self._create_labels(attributes)
         info = InfoMetricFamily(name, description, labels=attributes)
         info.add_metric(labels=list(attributes.keys()), value=attributes)
         return info
-- 
2.43.0


From 3fcacb7ccd7422be6951c68a4148c27eb71c3db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:16 +0000
Subject: [PATCH 58/85] fix: do not fail Prometheus scrapes because of text
 that cannot be encoded

---
 .../src/opentelemetry/exporter/prometheus/__init__.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
index 4e7844d..f7017ef 100644
--- a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
+++ b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
@@ -367,7 +367,7 @@ class _CustomCollector:
         """Check the label value and return is appropriate representation"""
         if not isinstance(value, str):
             return dumps(value, default=str)
-        return str(value)
+        return value.encode("utf-8", "replace").decode("utf-8")
 
     def _create_labels(self, attributes: Attributes) -> Dict[str, str]:
         """Sanitize the attribute names according to Prometheus rule. The values of
-- 
2.43.0


From c1ecfba716d5494c900e5d961f06a4f2e3dbb5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:16 +0000
Subject: [PATCH 59/85] fix: report each Prometheus series once per scrape

---
 .../exporter/prometheus/__init__.py           | 68 +++++++++++++++----
 1 file changed, 53 insertions(+), 15 deletions(-)

diff --git a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
index f7017ef..6d848fb 100644
--- a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
+++ b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
@@ -67,7 +67,8 @@ from itertools import chain
 from json import dumps
 from logging import getLogger
 from os import environ
-from typing import Deque, Dict, Iterable, Sequence, Tuple, Union
+from threading import RLock
+from typing import Deque, Dict, Iterable, Sequence, Set, Tuple, Union
 
 from prometheus_client import start_http_server
 from prometheus_client.core import (
@@ -128,6 +129,19 @@ def _convert_buckets(
     return buckets
 
 
+def _get_time(metrics_data: MetricsData) -> int:
+    return max(
+        (
+            data_point.time_unix_nano
+            for resource_metrics in metrics_data.resource_metrics
+            for scope_metrics in resource_metrics.scope_metrics
+            for metric in scope_metrics.metrics
+            for data_point in metric.data.data_points
+        ),
+        default=0,
+    )
+
+
 class PrometheusMetricReader(MetricReader):
     """Prometheus metric exporter for OpenTelemetry."""
 
@@ -172,6 +186,7 @@ class _CustomCollector:
         self._metrics_datas: Deque[MetricsData] = deque()
         self._disable_target_info = disable_target_info
         self._target_info = None
+        self._lock = RLock()
 
     def add_metrics_data(self, metrics_data: MetricsData) -> None:
         """Add metrics to Prometheus data"""
@@ -183,6 +198,13 @@ class _CustomCollector:
         Collect is invoked every time a ``prometheus.Gatherer`` is run
         for example when the HTTP endpoint is invoked by Prometheus.
         """
+        # A scrape must see all the metrics collected for it, also if there are
+        # others at the same time
+        with self._lock:
+            metric_families = self._collect()
+        yield from metric_families
+
+    def _collect(self) -> Sequence[PrometheusMetric]:
         if self._callback is not None:
             self._callback()
 
@@ -202,21 +224,32 @@ class _CustomCollector:
                     self._target_info
                 )
 
+        metrics_datas = []
         while self._metrics_datas:
-            self._translate_to_prometheus(
-                self._metrics_datas.popleft(), metric_family_id_metric_family
+            metrics_datas.append(self._metrics_datas.popleft())
+
+        # There is more than one if metrics were also collected between two
+        # scrapes: only the newest point of each series is current
+        metrics_datas.sort(key=_get_time, reverse=True)
+        reported: Set[Tuple[str, Tuple[str, ...]]] = set()
+        for metrics_data in metrics_datas:
+            reported |= self._translate_to_prometheus(
+                metrics_data, metric_family_id_metric_family, reported
             )
 
-            if metric_family_id_metric_family:
-                yield from metric_family_id_metric_family.values()
+        return list(metric_family_id_metric_family.values())
 
     # pylint: disable=too-many-locals,too-many-branches
     def _translate_to_prometheus(
         self,
         metrics_data: MetricsData,
         metric_family_id_metric_family: Dict[str, PrometheusMetric],
-    ):
+        reported: Set[Tuple[str, Tuple[str, ...]]],
+    ) -> Set[Tuple[str, Tuple[str, ...]]]:
+        """Adds the points of the series which are not in reported, and returns
+        these series"""
         metrics = []
+        series = set()
 
         for resource_metrics in metrics_data.resource_metrics:
             for scope_metrics in resource_metrics.scope_metrics:
@@ -245,17 +278,20 @@ class _CustomCollector:
                 label_keys = list(labels.keys())
                 label_values = list(labels.values())
 
-                per_metric_family_ids.append(
-                    "|".join(
-                        [
-                            metric_name,
-                            metric_description,
-                            "%".join(label_keys),
-                            metric_unit,
-                        ]
-                    )
+                per_metric_family_id = "|".join(
+                    [
+                        metric_name,
+                        metric_description,
+                        "%".join(label_keys),
+                        metric_unit,
+                    ]
                 )
 
+                if (per_metric_family_id, tuple(label_values)) in reported:
+                    continue
+                series.add((per_metric_family_id, tuple(label_values)))
+
+                per_metric_family_ids.append(per_metric_family_id)
                 label_values_data_points.append(label_values)
                 label_keys_data_points.append(label_keys)
                 if isinstance(number_data_point, HistogramDataPoint):
@@ -362,6 +398,8 @@ class _CustomCollector:
                         sum_value=value["sum"],
                     )
 
+        return series
+
     # pylint: disable=no-self-use
     def _check_value(self, value: Union[int, float, str, Sequence]) -> str:
         """Check the label value and return is appropriate representation"""
-- 
2.43.0


From 1dfcd5156479f08aa587be8917c9b331cacf3722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:16 +0000
Subject: [PATCH 60/85] fix: match instrument names of views in any letter case

---
 .../src/opentelemetry/sdk/metrics/_internal/view.py          | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/view.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/view.py
index b3fa029..b01beb8 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/view.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/view.py
@@ -170,7 +170,10 @@ class View:
                 return False
 
         if self._instrument_name is not None:
-            if not fnmatch(instrument.name, self._instrument_name):
+            # Instrument names are case-insensitive
+            if not fnmatch(
+                instrument.name.lower(), self._instrument_name.lower()
+            ):
                 return False
 
         if self._instrument_unit is not None:
-- 
2.43.0


From 2cede1e40750159b697abb71efe43c3b291b432d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:07 +0000
Subject: [PATCH 61/85] fix: export Zipkin JSON v1 without a maximum tag length

---
 .../src/opentelemetry/exporter/zipkin/json/v1/__init__.py   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/v1/__init__.py b/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/v1/__init__.py
index c44a2dd..5014c21 100644
--- a/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/v1/__init__.py
+++ b/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/v1/__init__.py
@@ -27,7 +27,11 @@ class V1Encoder(Encoder):
     ) -> List[Dict]:
         binary_annotations = []
         for tag_key, tag_value in self._extract_tags_from_span(span).items():
-            if isinstance(tag_value, str) and self.max_tag_value_length > 0:
+            if (
+                isinstance(tag_value, str)
+                and self.max_tag_value_length is not None
+                and self.max_tag_value_length > 0
+            ):
                 tag_value = tag_value[: self.max_tag_value_length]
             binary_annotations.append(
                 {
-- 
2.43.0


From 32b52ecdee2fe3db072c60275e17a69fb4e31c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:07 +0000
Subject: [PATCH 62/85] fix: cut Zipkin list tags between elements also if JSON
 escapes characters

---
 .../src/opentelemetry/exporter/zipkin/encoder/__init__.py  | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py b/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py
index bb90daa..882ee7f 100644
--- a/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py
+++ b/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py
@@ -177,11 +177,8 @@ class Encoder(abc.ABC):
                 continue
 
             if defined_max_tag_value_length:
-                if tag_value_element is None:
-                    running_string_length += 4  # null with no quotes
-                else:
-                    # + 2 accounts for string quotation marks
-                    running_string_length += len(tag_value_element) + 2
+                # accounts for quotation marks and escaped characters
+                running_string_length += len(json.dumps(tag_value_element))
 
                 if tag_value_elements:
                     # accounts for ',' item separator
-- 
2.43.0


From 4af4acad6468715c4e6617c3ae8416b11acccae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 63/85] fix: let OpenTracing spans ignore the active span when
 started as active

---
 .../shim/opentracing_shim/__init__.py         | 37 ++++++++++---------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
index 8f4935e..65793d9 100644
--- a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
+++ b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
@@ -353,14 +353,22 @@ class ScopeShim(Scope):
             by :meth:`from_context_manager` to store the context manager as
             an attribute so that it can later be closed by calling its
             ``__exit__()`` method. Defaults to `None`.
+        attach_scope: Whether to make this :class:`ScopeShim` the active one
+            until it is closed. Defaults to `True`.
     """
 
     def __init__(
-        self, manager: "ScopeManagerShim", span: SpanShim, span_cm=None
+        self,
+        manager: "ScopeManagerShim",
+        span: SpanShim,
+        span_cm=None,
+        attach_scope: bool = True,
     ):
         super().__init__(manager, span)
         self._span_cm = span_cm
-        self._token = attach(set_value(_SHIM_KEY, self))
+        self._token = (
+            attach(set_value(_SHIM_KEY, self)) if attach_scope else None
+        )
 
     # TODO: Change type of `manager` argument to `opentracing.ScopeManager`? We
     # need to get rid of `manager.tracer` for this.
@@ -429,7 +437,8 @@ class ScopeShim(Scope):
         exc_val: BaseException | None,
         exc_tb: TracebackType | None,
     ) -> None:
-        detach(self._token)
+        if self._token is not None:
+            detach(self._token)
         if self._span_cm is not None:
             self._span_cm.__exit__(exc_type, exc_val, exc_tb)
         else:
@@ -497,12 +506,14 @@ class ScopeManagerShim(ScopeManager):
         if span.get_span_context() == INVALID_SPAN_CONTEXT:
             return None
 
-        try:
-            return get_value(_SHIM_KEY)
-        except KeyError:
-            span_context = SpanContextShim(span.get_span_context())
-            wrapped_span = SpanShim(self._tracer, span_context, span)
-            return ScopeShim(self, span=wrapped_span)
+        scope = get_value(_SHIM_KEY)
+        if scope is not None and scope.span.unwrap() is span:
+            return scope
+
+        # The current span was not activated by the shim.
+        span_context = SpanContextShim(span.get_span_context())
+        wrapped_span = SpanShim(self._tracer, span_context, span)
+        return ScopeShim(self, span=wrapped_span, attach_scope=False)
 
     @property
     def tracer(self) -> "TracerShim":
@@ -594,14 +605,6 @@ class TracerShim(Tracer):
             :class:`ScopeManagerShim`.
         """
 
-        current_span = get_current_span()
-
-        if (
-            child_of is None
-            and current_span.get_span_context() is not INVALID_SPAN_CONTEXT
-        ):
-            child_of = SpanShim(None, None, current_span)
-
         span = self.start_span(
             operation_name=operation_name,
             child_of=child_of,
-- 
2.43.0


From 862cd0e3267f4c5ce70d50b769443a09063c8a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 64/85] fix: prefer OpenTracing references to the active span
 as parent

---
 .../shim/opentracing_shim/__init__.py           | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
index 65793d9..ffbfd87 100644
--- a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
+++ b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
@@ -649,8 +649,17 @@ class TracerShim(Tracer):
             An already-started :class:`SpanShim` instance.
         """
 
+        valid_links = []
+        if references:
+            for ref in references:
+                if (
+                    ref.referenced_context is not None
+                    and ref.referenced_context.unwrap().is_valid
+                ):
+                    valid_links.append(Link(ref.referenced_context.unwrap()))
+
         # Use active span as parent when no explicit parent is specified.
-        if not ignore_active_span and not child_of:
+        if not ignore_active_span and not child_of and not valid_links:
             child_of = self.active_span
 
         # Use the specified parent or the active span if possible. Otherwise,
@@ -659,12 +668,6 @@ class TracerShim(Tracer):
         if isinstance(parent, OtelSpanContext):
             parent = NonRecordingSpan(parent)
 
-        valid_links = []
-        if references:
-            for ref in references:
-                if ref.referenced_context.unwrap() is not INVALID_SPAN_CONTEXT:
-                    valid_links.append(Link(ref.referenced_context.unwrap()))
-
         if valid_links and parent is None:
             parent = NonRecordingSpan(valid_links[0].context)
 
-- 
2.43.0


From b24af204612f6d3c2d8030bdbec33bf3943dbab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 65/85] fix: name OpenTracing log events with text

---
 .../src/opentelemetry/shim/opentracing_shim/util.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/util.py b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/util.py
index eb7d3d9..8fffa9e 100644
--- a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/util.py
+++ b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/util.py
@@ -51,4 +51,4 @@ def event_name_from_kv(key_values):
     if key_values is None or "event" not in key_values:
         return DEFAULT_EVENT_NAME
 
-    return key_values["event"]
+    return str(key_values["event"])
-- 
2.43.0


From 11c54972223d464119d131ba792014286b874b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 66/85] fix: do not extract the active span from empty
 OpenTracing carriers

---
 .../src/opentelemetry/shim/opentracing_shim/__init__.py        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
index ffbfd87..7cbee25 100644
--- a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
+++ b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
@@ -748,7 +748,8 @@ class TracerShim(Tracer):
             raise UnsupportedFormatException
 
         propagator = get_global_textmap()
-        ctx = propagator.extract(carrier)
+        # Nothing of the current context belongs to the carrier.
+        ctx = propagator.extract(carrier, context=Context())
         span = get_current_span(ctx)
         if span is not None:
             otel_context = span.get_span_context()
-- 
2.43.0


From 6365552f81107b3581cfa747cbacc491cac9be18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 67/85] fix: read OpenCensus message event times as UTC

---
 .../src/opentelemetry/shim/opencensus/_shim_span.py      | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_span.py b/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_span.py
index 2012035..6887f37 100644
--- a/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_span.py
+++ b/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_span.py
@@ -13,7 +13,7 @@
 # limitations under the License.
 
 import logging
-from datetime import datetime
+from datetime import datetime, timedelta
 from typing import TYPE_CHECKING
 
 import wrapt
@@ -53,10 +53,11 @@ def _opencensus_time_to_nanos(timestamp: str) -> int:
     # https://github.com/census-instrumentation/opencensus-python/blob/c38c71b9285e71de94d0185ff3c5bf65ee163345/opencensus/common/utils/__init__.py#L76
     #
     # datetime.fromisoformat() does not work with the added "Z" until python 3.11
-    seconds_float = datetime.strptime(
+    # and naive datetimes would be taken as local time by datetime.timestamp()
+    since_epoch = datetime.strptime(
         timestamp, "%Y-%m-%dT%H:%M:%S.%fZ"
-    ).timestamp()
-    return round(seconds_float * 1e9)
+    ) - datetime(1970, 1, 1)
+    return since_epoch // timedelta(microseconds=1) * 1000
 
 
 # pylint: disable=abstract-method
-- 
2.43.0


From d4ddf2bca1fd778dd854bda4076508b65b976b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:21 +0000
Subject: [PATCH 68/85] fix: the periodic reader's shutdown passes its
 remaining time to the exporter

MetricExporter.shutdown takes it as timeout_millis; given as timeout it was
ignored, and the exporter used its own default of 30 s.
---
 .../opentelemetry/sdk/metrics/_internal/export/__init__.py    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index 73e56af..0d222ba 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -618,7 +618,9 @@ class PeriodicExportingMetricReader(MetricReader):
         self._exporter_shutdown = True
         if acquired:
             lock.release()
-        self._exporter.shutdown(timeout=(deadline_ns - time_ns()) / 10**6)
+        self._exporter.shutdown(
+            timeout_millis=(deadline_ns - time_ns()) / 10**6
+        )
 
     def force_flush(self, timeout_millis: float = 10_000) -> bool:
         self._collect_and_export(timeout_millis, timeout_millis)
-- 
2.43.0


From e260c93b240f4d1b450531b959440ce2985946ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:21 +0000
Subject: [PATCH 69/85] fix: the periodic reader's force_flush returns the
 exporter's result

---
 .../src/opentelemetry/sdk/metrics/_internal/export/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index 0d222ba..1a38b0d 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -624,5 +624,4 @@ class PeriodicExportingMetricReader(MetricReader):
 
     def force_flush(self, timeout_millis: float = 10_000) -> bool:
         self._collect_and_export(timeout_millis, timeout_millis)
-        self._exporter.force_flush(timeout_millis=timeout_millis)
-        return True
+        return self._exporter.force_flush(timeout_millis=timeout_millis)
-- 
2.43.0


From 9f927acfc22c31f3d2e6904e4217b8fefa47968c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:21 +0000
Subject: [PATCH 70/85] fix: the meter provider's force_flush returns False if
 a reader's does

---
 .../src/opentelemetry/sdk/metrics/_internal/__init__.py    | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
index df40676..95cb710 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
@@ -521,6 +521,7 @@ class MeterProvider(APIMeterProvider):
         deadline_ns = time_ns() + timeout_millis * 10**6
 
         metric_reader_error = {}
+        flushed = True
 
         for metric_reader in self._sdk_config.metric_readers:
             current_ts = time_ns()
@@ -529,9 +530,11 @@ class MeterProvider(APIMeterProvider):
                     raise MetricsTimeoutError(
                         "Timed out while flushing metric readers"
                     )
-                metric_reader.force_flush(
+                result = metric_reader.force_flush(
                     timeout_millis=(deadline_ns - current_ts) / 10**6
                 )
+                # a reader that returns nothing did not fail
+                flushed = flushed and result is not False
 
             # pylint: disable=broad-exception-caught
             except Exception as error:
@@ -551,7 +554,7 @@ class MeterProvider(APIMeterProvider):
                 "metric readers failed during collect:\n"
                 f"{metric_reader_error_string}"
             )
-        return True
+        return flushed
 
     def shutdown(self, timeout_millis: float = 30_000):
         deadline_ns = time_ns() + timeout_millis * 10**6
-- 
2.43.0


From d3e5d2c299853cf436c7ad19f966b8a296c603d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:51 +0000
Subject: [PATCH 71/85] fix: a handler of a span's own warnings may use that
 span

They are logged while the span's lock is held: a log handler that adds an
event to the current span deadlocked.
---
 opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
index e34af7e..fff3b95 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
@@ -797,7 +797,8 @@ class Span(trace_api.Span, ReadableSpan):
         self._set_status_on_exception = set_status_on_exception
         self._span_processor = span_processor
         self._limits = limits
-        self._lock = threading.Lock()
+        # reentrant: a handler of the warnings logged below may use this span
+        self._lock = threading.RLock()
         self._attributes = BoundedAttributes(
             self._limits.max_span_attributes,
             attributes,
-- 
2.43.0


From 25d272e1f6533294f3edb34ea2ebb28ecfeeb51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:51 +0000
Subject: [PATCH 72/85] fix: an export made by a handler of the gRPC exporter's
 warnings does not hang

The warnings are logged while the export lock is held: telemetry that a log
handler hands to the same exporter waited for that lock forever.
---
 .../exporter/otlp/proto/grpc/exporter.py           | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
index 7d45d90..6fc7fa1 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
@@ -261,6 +261,7 @@ class OTLPExporterMixin(
         self._client = self._stub(self._channel)
 
         self._export_lock = threading.Lock()
+        self._exporting_thread = threading.local()
         self._shutdown = False
 
     @abstractmethod
@@ -278,6 +279,19 @@ class OTLPExporterMixin(
             logger.warning("Exporter already shutdown, ignoring batch")
             return self._result.FAILURE
 
+        # A handler of the logs below can export in turn: it would wait
+        # forever for the lock that this thread holds.
+        if getattr(self._exporting_thread, "active", False):
+            return self._result.FAILURE
+        self._exporting_thread.active = True
+        try:
+            return self._export_with_retries(data)
+        finally:
+            self._exporting_thread.active = False
+
+    def _export_with_retries(
+        self, data: Union[TypingSequence[ReadableSpan], MetricsData]
+    ) -> ExportResultT:
         # FIXME remove this check if the export type for traces
         # gets updated to a class that represents the proto
         # TracesData and use the code below instead.
-- 
2.43.0


From f2fd426818003248c3ab0bfb899657650004083b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:51 +0000
Subject: [PATCH 73/85] fix: reading attributes while another thread updates
 them

An update removes the key before it adds it again: without the lock a reader
saw an attribute that was set as missing.
---
 .../src/opentelemetry/attributes/__init__.py             | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/attributes/__init__.py b/opentelemetry-api/src/opentelemetry/attributes/__init__.py
index 4979529..35e7b08 100644
--- a/opentelemetry-api/src/opentelemetry/attributes/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/attributes/__init__.py
@@ -163,7 +163,8 @@ class BoundedAttributes(MutableMapping):  # type: ignore
         return f"{dict(self._dict)}"
 
     def __getitem__(self, key: str) -> types.AttributeValue:
-        return self._dict[key]
+        with self._lock:
+            return self._dict[key]
 
     def __setitem__(self, key: str, value: types.AttributeValue) -> None:
         if getattr(self, "_immutable", False):  # type: ignore
@@ -198,7 +199,9 @@ class BoundedAttributes(MutableMapping):  # type: ignore
             return iter(self._dict.copy())  # type: ignore
 
     def __len__(self) -> int:
-        return len(self._dict)
+        with self._lock:
+            return len(self._dict)
 
     def copy(self):  # type: ignore
-        return self._dict.copy()  # type: ignore
+        with self._lock:
+            return self._dict.copy()  # type: ignore
-- 
2.43.0


From 391ff28b0e4e992a4681e9c3d194f556bd3ec289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:51 +0000
Subject: [PATCH 74/85] fix: the JSON form of a span that another thread is
 updating

Its attributes were read key by key: one evicted meanwhile made to_json raise.
---
 opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
index fff3b95..f5aeb6e 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
@@ -532,6 +532,9 @@ class ReadableSpan:
     def _format_attributes(
         attributes: types.Attributes,
     ) -> Optional[Dict[str, Any]]:
+        if isinstance(attributes, BoundedAttributes):
+            # in one step: another thread may still be setting attributes
+            return dict(attributes.copy())
         if attributes is not None and not isinstance(attributes, dict):
             return dict(attributes)
         return attributes
-- 
2.43.0


From 3ae8469f2a9f1fc5577b514ca4fbaf3f73533daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:10 +0000
Subject: [PATCH 75/85] fix: the concurrent processors work while the
 interpreter exits

No thread pool accepts work any more by then: the exit function of the provider
failed, and what its processors still held was lost.
---
 .../sdk/_logs/_internal/__init__.py           |  8 ++++---
 .../src/opentelemetry/sdk/trace/__init__.py   |  8 +++++--
 .../src/opentelemetry/sdk/util/__init__.py    | 22 ++++++++++++++++++-
 .../src/opentelemetry/sdk/util/__init__.pyi   |  7 ++++++
 4 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index 4a864da..ec386d5 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -45,7 +45,7 @@ from opentelemetry.sdk.environment_variables import (
     OTEL_SDK_DISABLED,
 )
 from opentelemetry.sdk.resources import Resource
-from opentelemetry.sdk.util import ns_to_iso_str
+from opentelemetry.sdk.util import ns_to_iso_str, submit_or_run
 from opentelemetry.sdk.util.instrumentation import InstrumentationScope
 from opentelemetry.semconv.trace import SpanAttributes
 from opentelemetry.trace import (
@@ -395,7 +395,7 @@ class ConcurrentMultiLogRecordProcessor(LogRecordProcessor):
     ):
         futures = []
         for lp in self._log_record_processors:
-            future = self._executor.submit(func(lp), *args, **kwargs)
+            future = submit_or_run(self._executor, func(lp), *args, **kwargs)
             futures.append(future)
         for future in futures:
             future.result()
@@ -419,7 +419,9 @@ class ConcurrentMultiLogRecordProcessor(LogRecordProcessor):
         """
         futures = []
         for lp in self._log_record_processors:
-            future = self._executor.submit(lp.force_flush, timeout_millis)
+            future = submit_or_run(
+                self._executor, lp.force_flush, timeout_millis
+            )
             futures.append(future)
 
         done_futures, not_done_futures = concurrent.futures.wait(
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
index f5aeb6e..70a75a2 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
@@ -240,7 +240,9 @@ class ConcurrentMultiSpanProcessor(SpanProcessor):
     ):
         futures = []
         for sp in self._span_processors:
-            future = self._executor.submit(func(sp), *args, **kwargs)
+            future = util.submit_or_run(
+                self._executor, func(sp), *args, **kwargs
+            )
             futures.append(future)
         for future in futures:
             future.result()
@@ -274,7 +276,9 @@ class ConcurrentMultiSpanProcessor(SpanProcessor):
         """
         futures = []
         for sp in self._span_processors:  # type: SpanProcessor
-            future = self._executor.submit(sp.force_flush, timeout_millis)
+            future = util.submit_or_run(
+                self._executor, sp.force_flush, timeout_millis
+            )
             futures.append(future)
 
         timeout_sec = timeout_millis / 1e3
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/util/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/util/__init__.py
index 68f10dd..1473fbd 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/util/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/util/__init__.py
@@ -16,7 +16,8 @@ import datetime
 import threading
 from collections import deque
 from collections.abc import MutableMapping, Sequence
-from typing import Optional
+from concurrent.futures import Executor, Future
+from typing import Any, Callable, Optional
 
 from deprecated import deprecated
 
@@ -43,6 +44,25 @@ def get_dict_as_key(labels):
     )
 
 
+def submit_or_run(
+    executor: Executor,
+    func: Callable[..., Any],
+    *args: Any,
+    **kwargs: Any,
+) -> Future:
+    """Submits the call to the executor, or makes it here if the executor takes
+    none any more because the interpreter is exiting."""
+    try:
+        return executor.submit(func, *args, **kwargs)
+    except RuntimeError:
+        future: Future = Future()
+        try:
+            future.set_result(func(*args, **kwargs))
+        except Exception as error:  # pylint: disable=broad-exception-caught
+            future.set_exception(error)
+        return future
+
+
 class BoundedList(Sequence):
     """An append only list with a fixed max size.
 
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/util/__init__.pyi b/opentelemetry-sdk/src/opentelemetry/sdk/util/__init__.pyi
index 55042fc..60ec155 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/util/__init__.pyi
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/util/__init__.pyi
@@ -12,7 +12,10 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+from concurrent.futures import Executor, Future
 from typing import (
+    Any,
+    Callable,
     Iterable,
     Iterator,
     Mapping,
@@ -34,6 +37,10 @@ def get_dict_as_key(
 ) -> AttributesAsKey: ...
 
 # pylint: disable=no-self-use
+def submit_or_run(
+    executor: Executor, func: Callable[..., Any], *args: Any, **kwargs: Any
+) -> Future[Any]: ...
+
 class BoundedList(Sequence[_T]):
     """An append only list with a fixed max size.
 
-- 
2.43.0


From 100f27938c42ac29a94a1537911a1c6502652d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:10 +0000
Subject: [PATCH 76/85] fix: the concurrent processors work after a fork

The threads of their pool exist in the parent only: the first span or log
record of the child waited forever.
---
 .../sdk/_logs/_internal/__init__.py              | 14 +++++++++++++-
 .../src/opentelemetry/sdk/trace/__init__.py      |  8 ++++++++
 .../src/opentelemetry/sdk/util/__init__.py       | 16 ++++++++++++++++
 .../src/opentelemetry/sdk/util/__init__.pyi      |  1 +
 4 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index ec386d5..dfd787f 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -45,7 +45,11 @@ from opentelemetry.sdk.environment_variables import (
     OTEL_SDK_DISABLED,
 )
 from opentelemetry.sdk.resources import Resource
-from opentelemetry.sdk.util import ns_to_iso_str, submit_or_run
+from opentelemetry.sdk.util import (
+    ns_to_iso_str,
+    reinit_after_fork,
+    submit_or_run,
+)
 from opentelemetry.sdk.util.instrumentation import InstrumentationScope
 from opentelemetry.semconv.trace import SpanAttributes
 from opentelemetry.trace import (
@@ -377,9 +381,17 @@ class ConcurrentMultiLogRecordProcessor(LogRecordProcessor):
         # iterating through it on "emit".
         self._log_record_processors = ()  # type: Tuple[LogRecordProcessor, ...]
         self._lock = threading.Lock()
+        self._max_workers = max_workers
         self._executor = concurrent.futures.ThreadPoolExecutor(
             max_workers=max_workers
         )
+        reinit_after_fork(self._at_fork_reinit)
+
+    def _at_fork_reinit(self) -> None:
+        # the threads of the parent do not exist in the child
+        self._executor = concurrent.futures.ThreadPoolExecutor(
+            max_workers=self._max_workers
+        )
 
     def add_log_record_processor(
         self, log_record_processor: LogRecordProcessor
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
index 70a75a2..9c3e72c 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
@@ -223,9 +223,17 @@ class ConcurrentMultiSpanProcessor(SpanProcessor):
         # iterating through it on "on_start" and "on_end".
         self._span_processors = ()  # type: Tuple[SpanProcessor, ...]
         self._lock = threading.Lock()
+        self._num_threads = num_threads
         self._executor = concurrent.futures.ThreadPoolExecutor(
             max_workers=num_threads
         )
+        util.reinit_after_fork(self._at_fork_reinit)
+
+    def _at_fork_reinit(self) -> None:
+        # the threads of the parent do not exist in the child
+        self._executor = concurrent.futures.ThreadPoolExecutor(
+            max_workers=self._num_threads
+        )
 
     def add_span_processor(self, span_processor: SpanProcessor) -> None:
         """Adds a SpanProcessor to the list handled by this instance."""
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/util/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/util/__init__.py
index 1473fbd..713b6cc 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/util/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/util/__init__.py
@@ -13,7 +13,9 @@
 # limitations under the License.
 
 import datetime
+import os
 import threading
+import weakref
 from collections import deque
 from collections.abc import MutableMapping, Sequence
 from concurrent.futures import Executor, Future
@@ -44,6 +46,20 @@ def get_dict_as_key(labels):
     )
 
 
+def reinit_after_fork(reinit: Callable[[], None]) -> None:
+    """Calls the method in forked children while its object exists."""
+    if not hasattr(os, "register_at_fork"):
+        return
+    weak_reinit = weakref.WeakMethod(reinit)
+
+    def call():
+        method = weak_reinit()
+        if method is not None:
+            method()
+
+    os.register_at_fork(after_in_child=call)
+
+
 def submit_or_run(
     executor: Executor,
     func: Callable[..., Any],
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/util/__init__.pyi b/opentelemetry-sdk/src/opentelemetry/sdk/util/__init__.pyi
index 60ec155..f870961 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/util/__init__.pyi
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/util/__init__.pyi
@@ -37,6 +37,7 @@ def get_dict_as_key(
 ) -> AttributesAsKey: ...
 
 # pylint: disable=no-self-use
+def reinit_after_fork(reinit: Callable[[], None]) -> None: ...
 def submit_or_run(
     executor: Executor, func: Callable[..., Any], *args: Any, **kwargs: Any
 ) -> Future[Any]: ...
-- 
2.43.0


From 244a2f6277e357fe9f7557de686a2183bbe2c8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:40 +0000
Subject: [PATCH 77/85] fix: locks held by other threads during a fork hang the
 child

A thread of the parent that records, collects or exports while another one
forks does not exist in the child and never releases the lock it holds there.
---
 .../exporter/otlp/proto/grpc/exporter.py      |  3 +-
 .../exporter/prometheus/__init__.py           |  3 +-
 .../src/opentelemetry/attributes/__init__.py  |  3 ++
 .../metrics/_internal/__init__.py             |  7 ++--
 .../src/opentelemetry/util/_fork.py           | 41 +++++++++++++++++++
 .../src/opentelemetry/util/_once.py           |  4 +-
 .../sdk/_logs/_internal/__init__.py           |  7 ++--
 .../sdk/_logs/_internal/export/__init__.py    |  1 +
 .../export/in_memory_log_exporter.py          |  3 +-
 .../sdk/metrics/_internal/__init__.py         |  9 ++--
 .../_internal/_view_instrument_match.py       |  3 +-
 .../sdk/metrics/_internal/aggregation.py      |  3 +-
 .../mapping/exponent_mapping.py               |  3 +-
 .../mapping/logarithm_mapping.py              |  3 +-
 .../sdk/metrics/_internal/export/__init__.py  |  4 +-
 .../metrics/_internal/measurement_consumer.py |  3 +-
 .../_internal/metric_reader_storage.py        |  3 +-
 .../src/opentelemetry/sdk/trace/__init__.py   |  5 ++-
 .../sdk/trace/export/__init__.py              |  1 +
 .../trace/export/in_memory_span_exporter.py   |  3 +-
 20 files changed, 88 insertions(+), 24 deletions(-)
 create mode 100644 opentelemetry-api/src/opentelemetry/util/_fork.py

diff --git a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
index 6fc7fa1..cb10f2a 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
@@ -72,6 +72,7 @@ from opentelemetry.sdk.environment_variables import (
 from opentelemetry.sdk.metrics.export import MetricsData
 from opentelemetry.sdk.resources import Resource as SDKResource
 from opentelemetry.sdk.trace import ReadableSpan
+from opentelemetry.util._fork import fork_safe
 from opentelemetry.util.re import parse_env_headers
 
 logger = getLogger(__name__)
@@ -260,7 +261,7 @@ class OTLPExporterMixin(
             )
         self._client = self._stub(self._channel)
 
-        self._export_lock = threading.Lock()
+        self._export_lock = fork_safe(threading.Lock())
         self._exporting_thread = threading.local()
         self._shutdown = False
 
diff --git a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
index 6d848fb..6f398e5 100644
--- a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
+++ b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
@@ -106,6 +106,7 @@ from opentelemetry.sdk.metrics.export import (
     MetricsData,
     Sum,
 )
+from opentelemetry.util._fork import fork_safe
 from opentelemetry.util.types import Attributes
 
 _logger = getLogger(__name__)
@@ -186,7 +187,7 @@ class _CustomCollector:
         self._metrics_datas: Deque[MetricsData] = deque()
         self._disable_target_info = disable_target_info
         self._target_info = None
-        self._lock = RLock()
+        self._lock = fork_safe(RLock())
 
     def add_metrics_data(self, metrics_data: MetricsData) -> None:
         """Add metrics to Prometheus data"""
diff --git a/opentelemetry-api/src/opentelemetry/attributes/__init__.py b/opentelemetry-api/src/opentelemetry/attributes/__init__.py
index 35e7b08..dea93d8 100644
--- a/opentelemetry-api/src/opentelemetry/attributes/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/attributes/__init__.py
@@ -16,6 +16,7 @@ import logging
 import threading
 from collections import OrderedDict
 from collections.abc import MutableMapping
+from contextlib import nullcontext
 from typing import Optional, Sequence, Tuple, Union
 
 from opentelemetry.util import types
@@ -158,6 +159,8 @@ class BoundedAttributes(MutableMapping):  # type: ignore
             for key, value in attributes.items():
                 self[key] = value
         self._immutable = immutable
+        if immutable:
+            self._lock = nullcontext()  # type: ignore
 
     def __repr__(self) -> str:
         return f"{dict(self._dict)}"
diff --git a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
index b5cca3e..e6a8d9f 100644
--- a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
@@ -74,6 +74,7 @@ from opentelemetry.metrics._internal.instrument import (
     _ProxyObservableUpDownCounter,
     _ProxyUpDownCounter,
 )
+from opentelemetry.util._fork import fork_safe
 from opentelemetry.util._once import Once
 from opentelemetry.util._providers import _load_provider
 from opentelemetry.util.types import (
@@ -166,7 +167,7 @@ def _get_real_meter(
 
 class _ProxyMeterProvider(MeterProvider):
     def __init__(self) -> None:
-        self._lock = Lock()
+        self._lock = fork_safe(Lock())
         self._meters: List[_ProxyMeter] = []
         self._real_meter_provider: Optional[MeterProvider] = None
 
@@ -231,7 +232,7 @@ class Meter(ABC):
         self._instrument_ids: Dict[
             str, Optional[_MetricsHistogramAdvisory]
         ] = {}
-        self._instrument_ids_lock = Lock()
+        self._instrument_ids_lock = fork_safe(Lock())
 
     @property
     def name(self) -> str:
@@ -537,7 +538,7 @@ class _ProxyMeter(Meter):
     ) -> None:
         super().__init__(name, version=version, schema_url=schema_url)
         self._attributes = attributes
-        self._lock = Lock()
+        self._lock = fork_safe(Lock())
         self._instruments: List[_ProxyInstrumentT] = []
         self._real_meter: Optional[Meter] = None
 
diff --git a/opentelemetry-api/src/opentelemetry/util/_fork.py b/opentelemetry-api/src/opentelemetry/util/_fork.py
new file mode 100644
index 0000000..be59eaf
--- /dev/null
+++ b/opentelemetry-api/src/opentelemetry/util/_fork.py
@@ -0,0 +1,41 @@
+# Copyright The OpenTelemetry Authors
+#
+# Licensed under the Apache License, Version 2.0 (the "License");
+# you may not use this file except in compliance with the License.
+# You may obtain a copy of the License at
+#
+#     http://www.apache.org/licenses/LICENSE-2.0
+#
+# Unless required by applicable law or agreed to in writing, software
+# distributed under the License is distributed on an "AS IS" BASIS,
+# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+# See the License for the specific language governing permissions and
+# limitations under the License.
+
+import os
+import weakref
+from typing import Any, TypeVar
+
+_LockT = TypeVar("_LockT")
+
+_locks: "weakref.WeakSet[Any]" = weakref.WeakSet()
+
+
+def fork_safe(lock: _LockT) -> _LockT:
+    """Makes the lock free in forked children, where a thread of the parent
+    that held it during the fork does not exist and never releases it."""
+    _locks.add(lock)
+    return lock
+
+
+def _free_locks() -> None:
+    for lock in list(_locks):
+        # the thread that forks goes on in the child
+        if hasattr(lock, "_is_owned") and lock._is_owned():
+            continue
+        if hasattr(lock, "_at_fork_reinit"):
+            lock._at_fork_reinit()
+
+
+if hasattr(os, "register_at_fork"):
+    os.register_at_fork(after_in_child=_free_locks)
diff --git a/opentelemetry-api/src/opentelemetry/util/_once.py b/opentelemetry-api/src/opentelemetry/util/_once.py
index c0cee43..12a4cb1 100644
--- a/opentelemetry-api/src/opentelemetry/util/_once.py
+++ b/opentelemetry-api/src/opentelemetry/util/_once.py
@@ -15,6 +15,8 @@
 from threading import Lock
 from typing import Callable
 
+from opentelemetry.util._fork import fork_safe
+
 
 class Once:
     """Execute a function exactly once and block all callers until the function returns
@@ -23,7 +25,7 @@ class Once:
     """
 
     def __init__(self) -> None:
-        self._lock = Lock()
+        self._lock = fork_safe(Lock())
         self._done = False
 
     def do_once(self, func: Callable[[], None]) -> bool:
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index dfd787f..0cf4ba0 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -58,6 +58,7 @@ from opentelemetry.trace import (
     get_current_span,
 )
 from opentelemetry.trace.span import TraceFlags
+from opentelemetry.util._fork import fork_safe
 from opentelemetry.util.types import AnyValue, Attributes
 
 _logger = logging.getLogger(__name__)
@@ -321,7 +322,7 @@ class SynchronousMultiLogRecordProcessor(LogRecordProcessor):
         # use a tuple to avoid race conditions when adding a new log and
         # iterating through it on "emit".
         self._log_record_processors = ()  # type: Tuple[LogRecordProcessor, ...]
-        self._lock = threading.Lock()
+        self._lock = fork_safe(threading.Lock())
 
     def add_log_record_processor(
         self, log_record_processor: LogRecordProcessor
@@ -380,7 +381,7 @@ class ConcurrentMultiLogRecordProcessor(LogRecordProcessor):
         # use a tuple to avoid race conditions when adding a new log and
         # iterating through it on "emit".
         self._log_record_processors = ()  # type: Tuple[LogRecordProcessor, ...]
-        self._lock = threading.Lock()
+        self._lock = fork_safe(threading.Lock())
         self._max_workers = max_workers
         self._executor = concurrent.futures.ThreadPoolExecutor(
             max_workers=max_workers
@@ -653,7 +654,7 @@ class LoggerProvider(APILoggerProvider):
         if shutdown_on_exit:
             self._at_exit_handler = atexit.register(self.shutdown)
         self._logger_cache = {}
-        self._logger_cache_lock = Lock()
+        self._logger_cache_lock = fork_safe(Lock())
 
     @property
     def resource(self):
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
index fe0e7b0..1817c7d 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
@@ -235,6 +235,7 @@ class BatchLogRecordProcessor(LogRecordProcessor):
 
     def _at_fork_reinit(self):
         self._condition = threading.Condition(threading.Lock())
+        self._flush_request = None
         self._queue.clear()
         self._worker_thread = threading.Thread(
             name="OtelBatchLogRecordProcessor",
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/in_memory_log_exporter.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/in_memory_log_exporter.py
index 68cb6b7..af109f0 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/in_memory_log_exporter.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/in_memory_log_exporter.py
@@ -17,6 +17,7 @@ import typing
 
 from opentelemetry.sdk._logs import LogData
 from opentelemetry.sdk._logs.export import LogExporter, LogExportResult
+from opentelemetry.util._fork import fork_safe
 
 
 class InMemoryLogExporter(LogExporter):
@@ -29,7 +30,7 @@ class InMemoryLogExporter(LogExporter):
 
     def __init__(self):
         self._logs = []
-        self._lock = threading.Lock()
+        self._lock = fork_safe(threading.Lock())
         self._stopped = False
 
     def clear(self) -> None:
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
index 95cb710..52adfb0 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
@@ -63,6 +63,7 @@ from opentelemetry.sdk.metrics._internal.sdk_configuration import (
 )
 from opentelemetry.sdk.resources import Resource
 from opentelemetry.sdk.util.instrumentation import InstrumentationScope
+from opentelemetry.util._fork import fork_safe
 from opentelemetry.util._once import Once
 from opentelemetry.util.types import (
     Attributes,
@@ -87,7 +88,7 @@ class Meter(APIMeter):
         self._instrumentation_scope = instrumentation_scope
         self._measurement_consumer = measurement_consumer
         self._instrument_id_instrument = {}
-        self._instrument_id_instrument_lock = Lock()
+        self._instrument_id_instrument_lock = fork_safe(Lock())
 
     def create_counter(self, name, unit="", description="") -> APICounter:
         status = self._register_instrument(name, _Counter, unit, description)
@@ -460,7 +461,7 @@ class MeterProvider(APIMeterProvider):
         )
     """
 
-    _all_metric_readers_lock = Lock()
+    _all_metric_readers_lock = fork_safe(Lock())
     _all_metric_readers = weakref.WeakSet()
 
     def __init__(
@@ -473,8 +474,8 @@ class MeterProvider(APIMeterProvider):
         shutdown_on_exit: bool = True,
         views: Sequence["opentelemetry.sdk.metrics.view.View"] = (),
     ):
-        self._lock = Lock()
-        self._meter_lock = Lock()
+        self._lock = fork_safe(Lock())
+        self._meter_lock = fork_safe(Lock())
         self._atexit_handler = None
         if resource is None:
             resource = Resource.create({})
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
index 57f143e..b6c17cc 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
@@ -29,6 +29,7 @@ from opentelemetry.sdk.metrics._internal.export import AggregationTemporality
 from opentelemetry.sdk.metrics._internal.measurement import Measurement
 from opentelemetry.sdk.metrics._internal.point import DataPointT
 from opentelemetry.sdk.metrics._internal.view import View
+from opentelemetry.util._fork import fork_safe
 
 _logger = getLogger(__name__)
 
@@ -43,7 +44,7 @@ class _ViewInstrumentMatch:
         self._view = view
         self._instrument = instrument
         self._attributes_aggregation: Dict[frozenset, _Aggregation] = {}
-        self._lock = Lock()
+        self._lock = fork_safe(Lock())
         self._instrument_class_aggregation = instrument_class_aggregation
         self._name = self._view._name or self._instrument.name
         self._description = (
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index 435dc25..55e9b1c 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -71,6 +71,7 @@ from opentelemetry.sdk.metrics._internal.point import Gauge as GaugePoint
 from opentelemetry.sdk.metrics._internal.point import (
     Histogram as HistogramPoint,
 )
+from opentelemetry.util._fork import fork_safe
 from opentelemetry.util.types import Attributes
 
 _DataPointVarT = TypeVar("_DataPointVarT", NumberDataPoint, HistogramDataPoint)
@@ -96,7 +97,7 @@ class _Aggregation(ABC, Generic[_DataPointVarT]):
         attributes: Attributes,
         reservoir_builder: ExemplarReservoirBuilder,
     ):
-        self._lock = Lock()
+        self._lock = fork_safe(Lock())
         self._attributes = attributes
         self._reservoir = reservoir_builder()
         self._previous_point = None
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exponential_histogram/mapping/exponent_mapping.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exponential_histogram/mapping/exponent_mapping.py
index 297bb7a..8c98bf6 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exponential_histogram/mapping/exponent_mapping.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exponential_histogram/mapping/exponent_mapping.py
@@ -30,6 +30,7 @@ from opentelemetry.sdk.metrics._internal.exponential_histogram.mapping.ieee_754
     get_ieee_754_exponent,
     get_ieee_754_mantissa,
 )
+from opentelemetry.util._fork import fork_safe
 
 
 class ExponentMapping(Mapping):
@@ -37,7 +38,7 @@ class ExponentMapping(Mapping):
     # https://github.com/open-telemetry/opentelemetry-go/blob/0e6f9c29c10d6078e8131418e1d1d166c7195d61/sdk/metric/aggregator/exponential/mapping/exponent/exponent.go
 
     _mappings = {}
-    _mappings_lock = Lock()
+    _mappings_lock = fork_safe(Lock())
 
     _min_scale = -10
     _max_scale = 0
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exponential_histogram/mapping/logarithm_mapping.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exponential_histogram/mapping/logarithm_mapping.py
index e73f3a8..2971120 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exponential_histogram/mapping/logarithm_mapping.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exponential_histogram/mapping/logarithm_mapping.py
@@ -29,6 +29,7 @@ from opentelemetry.sdk.metrics._internal.exponential_histogram.mapping.ieee_754
     get_ieee_754_exponent,
     get_ieee_754_mantissa,
 )
+from opentelemetry.util._fork import fork_safe
 
 
 class LogarithmMapping(Mapping):
@@ -36,7 +37,7 @@ class LogarithmMapping(Mapping):
     # https://github.com/open-telemetry/opentelemetry-go/blob/0e6f9c29c10d6078e8131418e1d1d166c7195d61/sdk/metric/aggregator/exponential/mapping/logarithm/logarithm.go
 
     _mappings = {}
-    _mappings_lock = Lock()
+    _mappings_lock = fork_safe(Lock())
 
     _min_scale = 1
     _max_scale = 20
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index 1a38b0d..c6766ca 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -61,6 +61,7 @@ from opentelemetry.sdk.metrics._internal.instrument import (
     _UpDownCounter,
 )
 from opentelemetry.sdk.metrics._internal.point import MetricsData
+from opentelemetry.util._fork import fork_safe
 from opentelemetry.util._once import Once
 
 _logger = getLogger(__name__)
@@ -405,7 +406,7 @@ class InMemoryMetricReader(MetricReader):
             preferred_temporality=preferred_temporality,
             preferred_aggregation=preferred_aggregation,
         )
-        self._lock = RLock()
+        self._lock = fork_safe(RLock())
         self._metrics_data: "opentelemetry.sdk.metrics.export.MetricsData" = (
             None
         )
@@ -518,6 +519,7 @@ class PeriodicExportingMetricReader(MetricReader):
         # another thread may have held them
         self._export_lock = Lock()
         self._collect_lock = Lock()
+        self._shutdown_event = Event()
         self._daemon_thread = Thread(
             name="OtelPeriodicExportingMetricReader",
             target=self._ticker,
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
index 4e3d25a..009d844 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
@@ -30,6 +30,7 @@ from opentelemetry.sdk.metrics._internal.metric_reader_storage import (
     MetricReaderStorage,
 )
 from opentelemetry.sdk.metrics._internal.point import Metric
+from opentelemetry.util._fork import fork_safe
 
 
 class MeasurementConsumer(ABC):
@@ -61,7 +62,7 @@ class SynchronousMeasurementConsumer(MeasurementConsumer):
         sdk_config: "opentelemetry.sdk.metrics._internal.SdkConfiguration",
     ) -> None:
         # reentrant: a callback may create asynchronous instruments
-        self._lock = RLock()
+        self._lock = fork_safe(RLock())
         self._sdk_config = sdk_config
         # should never be mutated
         self._reader_storages: Mapping[
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/metric_reader_storage.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/metric_reader_storage.py
index f512181..31ef3d7 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/metric_reader_storage.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/metric_reader_storage.py
@@ -52,6 +52,7 @@ from opentelemetry.sdk.metrics._internal.sdk_configuration import (
 )
 from opentelemetry.sdk.metrics._internal.view import View
 from opentelemetry.sdk.util.instrumentation import InstrumentationScope
+from opentelemetry.util._fork import fork_safe
 
 _logger = getLogger(__name__)
 
@@ -67,7 +68,7 @@ class MetricReaderStorage:
         instrument_class_temporality: Dict[type, AggregationTemporality],
         instrument_class_aggregation: Dict[type, Aggregation],
     ) -> None:
-        self._lock = RLock()
+        self._lock = fork_safe(RLock())
         self._sdk_config = sdk_config
         self._instrument_view_instrument_matches: Dict[
             Instrument, List[_ViewInstrumentMatch]
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
index 9c3e72c..ef58a16 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
@@ -74,6 +74,7 @@ from opentelemetry.semconv.attributes.exception_attributes import (
 from opentelemetry.trace import NoOpTracer, SpanContext
 from opentelemetry.trace.status import Status, StatusCode
 from opentelemetry.util import types
+from opentelemetry.util._fork import fork_safe
 from opentelemetry.util._decorator import _agnosticcontextmanager
 
 logger = logging.getLogger(__name__)
@@ -155,7 +156,7 @@ class SynchronousMultiSpanProcessor(SpanProcessor):
         # use a tuple to avoid race conditions when adding a new span and
         # iterating through it on "on_start" and "on_end".
         self._span_processors = ()
-        self._lock = threading.Lock()
+        self._lock = fork_safe(threading.Lock())
 
     def add_span_processor(self, span_processor: SpanProcessor) -> None:
         """Adds a SpanProcessor to the list handled by this instance."""
@@ -222,7 +223,7 @@ class ConcurrentMultiSpanProcessor(SpanProcessor):
         # use a tuple to avoid race conditions when adding a new span and
         # iterating through it on "on_start" and "on_end".
         self._span_processors = ()  # type: Tuple[SpanProcessor, ...]
-        self._lock = threading.Lock()
+        self._lock = fork_safe(threading.Lock())
         self._num_threads = num_threads
         self._executor = concurrent.futures.ThreadPoolExecutor(
             max_workers=num_threads
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
index e441a99..2ccc088 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
@@ -231,6 +231,7 @@ class BatchSpanProcessor(SpanProcessor):
 
     def _at_fork_reinit(self):
         self.condition = threading.Condition(threading.Lock())
+        self._flush_request = None
         self.queue.clear()
 
         # worker_thread is local to a process, only the thread that issued fork continues
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/in_memory_span_exporter.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/in_memory_span_exporter.py
index c28ecfd..a28920c 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/in_memory_span_exporter.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/in_memory_span_exporter.py
@@ -17,6 +17,7 @@ import typing
 
 from opentelemetry.sdk.trace import ReadableSpan
 from opentelemetry.sdk.trace.export import SpanExporter, SpanExportResult
+from opentelemetry.util._fork import fork_safe
 
 
 class InMemorySpanExporter(SpanExporter):
@@ -30,7 +31,7 @@ class InMemorySpanExporter(SpanExporter):
     def __init__(self) -> None:
         self._finished_spans: typing.List[ReadableSpan] = []
         self._stopped = False
-        self._lock = threading.Lock()
+        self._lock = fork_safe(threading.Lock())
 
     def clear(self) -> None:
         """Clear list of collected spans."""
-- 
2.43.0


From da1e154bd597b2f687b99016078ac295c6373d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:40 +0000
Subject: [PATCH 78/85] fix: an exponential histogram's mapping is cached only
 once it works

One that failed, or that another thread was making when the process forked,
stayed in the cache without its fields.
---
 .../_internal/exponential_histogram/mapping/__init__.py      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exponential_histogram/mapping/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exponential_histogram/mapping/__init__.py
index 387b1d1..bc4de2a 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exponential_histogram/mapping/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exponential_histogram/mapping/__init__.py
@@ -29,8 +29,9 @@ class Mapping(ABC):
             # classes having the same instance of cls._mappings and
             # cls._mappings_lock.
             if scale not in cls._mappings:
-                cls._mappings[scale] = super().__new__(cls)
-                cls._mappings[scale]._init(scale)
+                mapping = super().__new__(cls)
+                mapping._init(scale)
+                cls._mappings[scale] = mapping
 
         return cls._mappings[scale]
 
-- 
2.43.0


From 4675ef1982aa0d0872db3222c8247543eff1daad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:49 +0000
Subject: [PATCH 79/85] fix: a forked child does not use the HTTP connections
 of its parent

The requests of the two processes were mixed up on them.
---
 .../exporter/otlp/proto/http/_log_exporter/__init__.py      | 6 ++++++
 .../exporter/otlp/proto/http/metric_exporter/__init__.py    | 6 ++++++
 .../exporter/otlp/proto/http/trace_exporter/__init__.py     | 6 ++++++
 .../src/opentelemetry/exporter/zipkin/json/__init__.py      | 6 ++++++
 .../opentelemetry/exporter/zipkin/proto/http/__init__.py    | 6 ++++++
 5 files changed, 30 insertions(+)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py
index 2f7cf9c..02b1a56 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py
@@ -51,6 +51,7 @@ from opentelemetry.sdk.environment_variables import (
     OTEL_EXPORTER_OTLP_LOGS_TIMEOUT,
     OTEL_EXPORTER_OTLP_TIMEOUT,
 )
+from opentelemetry.sdk.util import reinit_after_fork
 from opentelemetry.util.re import parse_env_headers
 
 _logger = logging.getLogger(__name__)
@@ -115,6 +116,7 @@ class OTLPLogExporter(LogExporter):
         )
         self._compression = compression or _compression_from_env()
         self._session = session or requests.Session()
+        reinit_after_fork(self._at_fork_reinit)
         self._session.headers.update(self._headers)
         self._session.headers.update(_OTLP_HTTP_HEADERS)
         if self._compression is not Compression.NoCompression:
@@ -123,6 +125,10 @@ class OTLPLogExporter(LogExporter):
             )
         self._shutdown = False
 
+    def _at_fork_reinit(self):
+        # the open connections are the parent's
+        self._session.close()
+
     def _export(self, serialized_data: bytes):
         data = serialized_data
         if self._compression == Compression.Gzip:
diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
index 944e9ea..885a683 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
@@ -88,6 +88,7 @@ from opentelemetry.sdk.metrics.export import (  # noqa: F401
     Histogram as HistogramType,
 )
 from opentelemetry.sdk.resources import Resource as SDKResource
+from opentelemetry.sdk.util import reinit_after_fork
 from opentelemetry.util.re import parse_env_headers
 
 _logger = logging.getLogger(__name__)
@@ -154,6 +155,7 @@ class OTLPMetricExporter(MetricExporter, OTLPMetricExporterMixin):
         )
         self._compression = compression or _compression_from_env()
         self._session = session or requests.Session()
+        reinit_after_fork(self._at_fork_reinit)
         self._session.headers.update(self._headers)
         self._session.headers.update(_OTLP_HTTP_HEADERS)
         if self._compression is not Compression.NoCompression:
@@ -166,6 +168,10 @@ class OTLPMetricExporter(MetricExporter, OTLPMetricExporterMixin):
         )
         self._shutdown = False
 
+    def _at_fork_reinit(self):
+        # the open connections are the parent's
+        self._session.close()
+
     def _export(self, serialized_data: bytes):
         data = serialized_data
         if self._compression == Compression.Gzip:
diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py
index 8fde7ad..c56dc6e 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py
@@ -49,6 +49,7 @@ from opentelemetry.sdk.environment_variables import (
     OTEL_EXPORTER_OTLP_TRACES_TIMEOUT,
 )
 from opentelemetry.sdk.trace.export import SpanExporter, SpanExportResult
+from opentelemetry.sdk.util import reinit_after_fork
 from opentelemetry.util.re import parse_env_headers
 
 _logger = logging.getLogger(__name__)
@@ -112,6 +113,7 @@ class OTLPSpanExporter(SpanExporter):
         )
         self._compression = compression or _compression_from_env()
         self._session = session or requests.Session()
+        reinit_after_fork(self._at_fork_reinit)
         self._session.headers.update(self._headers)
         self._session.headers.update(_OTLP_HTTP_HEADERS)
         if self._compression is not Compression.NoCompression:
@@ -120,6 +122,10 @@ class OTLPSpanExporter(SpanExporter):
             )
         self._shutdown = False
 
+    def _at_fork_reinit(self):
+        # the open connections are the parent's
+        self._session.close()
+
     def _export(self, serialized_data: bytes):
         data = serialized_data
         if self._compression == Compression.Gzip:
diff --git a/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/__init__.py b/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/__init__.py
index ba313db..f9cf3b9 100644
--- a/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/__init__.py
+++ b/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/__init__.py
@@ -88,6 +88,7 @@ from opentelemetry.sdk.environment_variables import (
 )
 from opentelemetry.sdk.resources import SERVICE_NAME
 from opentelemetry.sdk.trace.export import SpanExporter, SpanExportResult
+from opentelemetry.sdk.util import reinit_after_fork
 from opentelemetry.trace import Span
 
 DEFAULT_ENDPOINT = "http://localhost:9411/api/v2/spans"
@@ -141,6 +142,7 @@ class ZipkinExporter(SpanExporter):
             self.encoder = JsonV2Encoder(max_tag_value_length)
 
         self.session = session or requests.Session()
+        reinit_after_fork(self._at_fork_reinit)
         self.session.headers.update(
             {"Content-Type": self.encoder.content_type()}
         )
@@ -149,6 +151,10 @@ class ZipkinExporter(SpanExporter):
             environ.get(OTEL_EXPORTER_ZIPKIN_TIMEOUT, 10)
         )
 
+    def _at_fork_reinit(self) -> None:
+        # the open connections are the parent's
+        self.session.close()
+
     def export(self, spans: Sequence[Span]) -> SpanExportResult:
         # After the call to Shutdown subsequent calls to Export are
         # not allowed and should return a Failure result
diff --git a/exporter/opentelemetry-exporter-zipkin-proto-http/src/opentelemetry/exporter/zipkin/proto/http/__init__.py b/exporter/opentelemetry-exporter-zipkin-proto-http/src/opentelemetry/exporter/zipkin/proto/http/__init__.py
index dcb092c..6592a33 100644
--- a/exporter/opentelemetry-exporter-zipkin-proto-http/src/opentelemetry/exporter/zipkin/proto/http/__init__.py
+++ b/exporter/opentelemetry-exporter-zipkin-proto-http/src/opentelemetry/exporter/zipkin/proto/http/__init__.py
@@ -85,6 +85,7 @@ from opentelemetry.sdk.environment_variables import (
 )
 from opentelemetry.sdk.resources import SERVICE_NAME
 from opentelemetry.sdk.trace.export import SpanExporter, SpanExportResult
+from opentelemetry.sdk.util import reinit_after_fork
 from opentelemetry.trace import Span
 
 DEFAULT_ENDPOINT = "http://localhost:9411/api/v2/spans"
@@ -134,6 +135,7 @@ class ZipkinExporter(SpanExporter):
         self.encoder = ProtobufEncoder(max_tag_value_length)
 
         self.session = session or requests.Session()
+        reinit_after_fork(self._at_fork_reinit)
         self.session.headers.update(
             {"Content-Type": self.encoder.content_type()}
         )
@@ -142,6 +144,10 @@ class ZipkinExporter(SpanExporter):
             environ.get(OTEL_EXPORTER_ZIPKIN_TIMEOUT, 10)
         )
 
+    def _at_fork_reinit(self) -> None:
+        # the open connections are the parent's
+        self.session.close()
+
     def export(self, spans: Sequence[Span]) -> SpanExportResult:
         # After the call to Shutdown subsequent calls to Export are
         # not allowed and should return a Failure result
-- 
2.43.0


From 87278cda44e3c64e72e0728a695a87519333d63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:03 +0000
Subject: [PATCH 80/85] fix: spans log nothing while they are locked

Two threads whose log handlers used each other's span waited for each other
forever.
---
 .../src/opentelemetry/attributes/__init__.py  | 22 +++--
 .../src/opentelemetry/sdk/trace/__init__.py   | 86 +++++++++++--------
 2 files changed, 65 insertions(+), 43 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/attributes/__init__.py b/opentelemetry-api/src/opentelemetry/attributes/__init__.py
index dea93d8..de5ac0c 100644
--- a/opentelemetry-api/src/opentelemetry/attributes/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/attributes/__init__.py
@@ -172,13 +172,23 @@ class BoundedAttributes(MutableMapping):  # type: ignore
     def __setitem__(self, key: str, value: types.AttributeValue) -> None:
         if getattr(self, "_immutable", False):  # type: ignore
             raise TypeError
-        with self._lock:
-            if self.maxlen is not None and self.maxlen == 0:
-                self.dropped += 1
-                return
+        self._set_cleaned(
+            [(key, _clean_attribute(key, value, self.max_value_len))]  # type: ignore
+        )
 
-            value = _clean_attribute(key, value, self.max_value_len)  # type: ignore
-            if value is not None:
+    def _set_cleaned(
+        self,
+        attributes: Sequence[Tuple[str, Optional[types.AttributeValue]]],
+    ) -> None:
+        """Sets attributes that are the result of _clean_attribute, which must
+        not be called under a lock as it may log"""
+        with self._lock:
+            for key, value in attributes:
+                if self.maxlen is not None and self.maxlen == 0:
+                    self.dropped += 1
+                    continue
+                if value is None:
+                    continue
                 if key in self._dict:
                     del self._dict[key]
                 elif (
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
index ef58a16..be0ba3b 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
@@ -44,7 +44,7 @@ from deprecated import deprecated
 
 from opentelemetry import context as context_api
 from opentelemetry import trace as trace_api
-from opentelemetry.attributes import BoundedAttributes
+from opentelemetry.attributes import BoundedAttributes, _clean_attribute
 from opentelemetry.sdk import util
 from opentelemetry.sdk.environment_variables import (
     OTEL_ATTRIBUTE_COUNT_LIMIT,
@@ -813,7 +813,7 @@ class Span(trace_api.Span, ReadableSpan):
         self._set_status_on_exception = set_status_on_exception
         self._span_processor = span_processor
         self._limits = limits
-        # reentrant: a handler of the warnings logged below may use this span
+        # reentrant: a signal handler may use this span
         self._lock = threading.RLock()
         self._attributes = BoundedAttributes(
             self._limits.max_span_attributes,
@@ -866,13 +866,18 @@ class Span(trace_api.Span, ReadableSpan):
     def set_attributes(
         self, attributes: Mapping[str, types.AttributeValue]
     ) -> None:
+        # before the lock is taken, as it may log
+        cleaned = [
+            (key, _clean_attribute(key, value, self._attributes.max_value_len))
+            for key, value in attributes.items()
+        ]
         with self._lock:
-            if self._end_time is not None:
-                logger.warning("Setting attribute on ended span.")
-                return
+            already_ended = self._end_time is not None
+            if not already_ended:
+                self._attributes._set_cleaned(cleaned)
 
-            for key, value in attributes.items():
-                self._attributes[key] = value
+        if already_ended:
+            logger.warning("Setting attribute on ended span.")
 
     def set_attribute(self, key: str, value: types.AttributeValue) -> None:
         return self.set_attributes({key: value})
@@ -947,12 +952,15 @@ class Span(trace_api.Span, ReadableSpan):
         parent_context: Optional[context_api.Context] = None,
     ) -> None:
         with self._lock:
-            if self._start_time is not None:
-                logger.warning("Calling start() on a started span.")
-                return
-            self._start_time = (
-                start_time if start_time is not None else time_ns()
-            )
+            already_started = self._start_time is not None
+            if not already_started:
+                self._start_time = (
+                    start_time if start_time is not None else time_ns()
+                )
+
+        if already_started:
+            logger.warning("Calling start() on a started span.")
+            return
 
         self._span_processor.on_start(self, parent_context=parent_context)
 
@@ -960,11 +968,15 @@ class Span(trace_api.Span, ReadableSpan):
         with self._lock:
             if self._start_time is None:
                 raise RuntimeError("Calling end() on a not started span.")
-            if self._end_time is not None:
-                logger.warning("Calling end() on an ended span.")
-                return
+            already_ended = self._end_time is not None
+            if not already_ended:
+                self._end_time = (
+                    end_time if end_time is not None else time_ns()
+                )
 
-            self._end_time = end_time if end_time is not None else time_ns()
+        if already_ended:
+            logger.warning("Calling end() on an ended span.")
+            return
 
         self._span_processor.on_end(self._readable_span())
 
@@ -976,34 +988,34 @@ class Span(trace_api.Span, ReadableSpan):
         return self._end_time is None
 
     @_check_span_ended
+    def _set_status(self, status: typing.Optional[Status]) -> None:
+        # Ignore future calls if status is already set to OK
+        if status is not None and not (
+            self._status and self._status.status_code is StatusCode.OK
+        ):
+            self._status = status
+
     def set_status(
         self,
         status: typing.Union[Status, StatusCode],
         description: typing.Optional[str] = None,
     ) -> None:
-        # Ignore future calls if status is already set to OK
+        # before the lock is taken, as it may log
         # Ignore calls to set to StatusCode.UNSET
+        new_status = None
         if isinstance(status, Status):
-            if (
-                self._status
-                and self._status.status_code is StatusCode.OK
-                or status.status_code is StatusCode.UNSET
-            ):
-                return
-            if description is not None:
-                logger.warning(
-                    "Description %s ignored. Use either `Status` or `(StatusCode, Description)`",
-                    description,
-                )
-            self._status = status
+            if status.status_code is not StatusCode.UNSET:
+                new_status = status
+                if description is not None:
+                    logger.warning(
+                        "Description %s ignored. Use either `Status` or `(StatusCode, Description)`",
+                        description,
+                    )
         elif isinstance(status, StatusCode):
-            if (
-                self._status
-                and self._status.status_code is StatusCode.OK
-                or status is StatusCode.UNSET
-            ):
-                return
-            self._status = Status(status, description)
+            if status is not StatusCode.UNSET:
+                new_status = Status(status, description)
+
+        self._set_status(new_status)
 
     def __exit__(
         self,
-- 
2.43.0


From fa16cc7c01a19bb7d61d4eaf0ae889fc145fc9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:03 +0000
Subject: [PATCH 81/85] fix: gRPC exporters log nothing while they hold their
 export lock

Two threads, each inside a failing export of one of two exporters, whose log
handlers handed telemetry to the other exporter, waited for each other
forever.
---
 .../exporter/otlp/proto/grpc/exporter.py      | 106 +++++++++---------
 1 file changed, 55 insertions(+), 51 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
index cb10f2a..09a51de 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
@@ -280,8 +280,7 @@ class OTLPExporterMixin(
             logger.warning("Exporter already shutdown, ignoring batch")
             return self._result.FAILURE
 
-        # A handler of the logs below can export in turn: it would wait
-        # forever for the lock that this thread holds.
+        # A handler of the logs below can export in turn, and fail in turn.
         if getattr(self._exporting_thread, "active", False):
             return self._result.FAILURE
         self._exporting_thread.active = True
@@ -310,64 +309,69 @@ class OTLPExporterMixin(
             if delay == max_value or self._shutdown:
                 return self._result.FAILURE
 
-            with self._export_lock:
-                if self._shutdown:
-                    return self._result.FAILURE
-                try:
+            # before the lock is taken, as it may log
+            request = self._translate_data(data)
+            try:
+                with self._export_lock:
+                    if self._shutdown:
+                        return self._result.FAILURE
                     self._client.Export(
-                        request=self._translate_data(data),
+                        request=request,
                         metadata=self._headers,
                         timeout=self._timeout,
                     )
 
-                    return self._result.SUCCESS
-
-                except RpcError as error:
-                    if error.code() in [
-                        StatusCode.CANCELLED,
-                        StatusCode.DEADLINE_EXCEEDED,
-                        StatusCode.RESOURCE_EXHAUSTED,
-                        StatusCode.ABORTED,
-                        StatusCode.OUT_OF_RANGE,
-                        StatusCode.UNAVAILABLE,
-                        StatusCode.DATA_LOSS,
-                    ]:
-                        retry_info_bin = dict(error.trailing_metadata()).get(
-                            "google.rpc.retryinfo-bin"
-                        )
-                        if retry_info_bin is not None:
-                            retry_info = RetryInfo()
-                            retry_info.ParseFromString(retry_info_bin)
-                            delay = (
-                                retry_info.retry_delay.seconds
-                                + retry_info.retry_delay.nanos / 1.0e9
-                            )
-
-                        logger.warning(
-                            (
-                                "Transient error %s encountered while exporting "
-                                "%s to %s, retrying in %ss."
-                            ),
-                            error.code(),
-                            self._exporting,
-                            self._endpoint,
-                            delay,
+                return self._result.SUCCESS
+
+            except RpcError as error:
+                # The lock is not held here: a handler of these messages may
+                # use another exporter, which may wait for this one in turn.
+                if error.code() in [
+                    StatusCode.CANCELLED,
+                    StatusCode.DEADLINE_EXCEEDED,
+                    StatusCode.RESOURCE_EXHAUSTED,
+                    StatusCode.ABORTED,
+                    StatusCode.OUT_OF_RANGE,
+                    StatusCode.UNAVAILABLE,
+                    StatusCode.DATA_LOSS,
+                ]:
+                    retry_info_bin = dict(error.trailing_metadata()).get(
+                        "google.rpc.retryinfo-bin"
+                    )
+                    if retry_info_bin is not None:
+                        retry_info = RetryInfo()
+                        retry_info.ParseFromString(retry_info_bin)
+                        delay = (
+                            retry_info.retry_delay.seconds
+                            + retry_info.retry_delay.nanos / 1.0e9
                         )
+
+                    logger.warning(
+                        (
+                            "Transient error %s encountered while exporting "
+                            "%s to %s, retrying in %ss."
+                        ),
+                        error.code(),
+                        self._exporting,
+                        self._endpoint,
+                        delay,
+                    )
+                    with self._export_lock:
                         sleep(delay)
-                        continue
-                    else:
-                        logger.error(
-                            "Failed to export %s to %s, error code: %s",
-                            self._exporting,
-                            self._endpoint,
-                            error.code(),
-                            exc_info=error.code() == StatusCode.UNKNOWN,
-                        )
+                    continue
+                else:
+                    logger.error(
+                        "Failed to export %s to %s, error code: %s",
+                        self._exporting,
+                        self._endpoint,
+                        error.code(),
+                        exc_info=error.code() == StatusCode.UNKNOWN,
+                    )
 
-                    if error.code() == StatusCode.OK:
-                        return self._result.SUCCESS
+                if error.code() == StatusCode.OK:
+                    return self._result.SUCCESS
 
-                    return self._result.FAILURE
+                return self._result.FAILURE
 
         return self._result.FAILURE
 
-- 
2.43.0


From a00cf9221a6b00255bfe5158652574ce127fad8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:33 +0000
Subject: [PATCH 82/85] fix: creating an asynchronous instrument does not wait
 for a collection

A callback that took a lock which the application held while it created an
asynchronous instrument waited forever, as the creation waited for the
collection that called the callback.
---
 .../sdk/metrics/_internal/measurement_consumer.py          | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
index 009d844..3c4f6c6 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
@@ -61,7 +61,7 @@ class SynchronousMeasurementConsumer(MeasurementConsumer):
         self,
         sdk_config: "opentelemetry.sdk.metrics._internal.SdkConfiguration",
     ) -> None:
-        # reentrant: a callback may create asynchronous instruments
+        # reentrant: a callback may collect
         self._lock = fork_safe(RLock())
         self._sdk_config = sdk_config
         # should never be mutated
@@ -99,8 +99,9 @@ class SynchronousMeasurementConsumer(MeasurementConsumer):
             "opentelemetry.sdk.metrics._internal.instrument._Asynchronous"
         ),
     ) -> None:
-        with self._lock:
-            self._async_instruments.append(instrument)
+        # Not under the lock, which is held while callbacks are called: they
+        # may wait for a lock of the application that this thread holds.
+        self._async_instruments.append(instrument)
 
     def collect(
         self,
-- 
2.43.0


From 5355a4946abb130642c24e641e34b7cfe0fb770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:42 +0000
Subject: [PATCH 83/85] fix: proxy meters and their provider hold no lock while
 they call the SDK

A handler of the messages that the SDK logs when an instrument or a meter is
created waited for the lock forever if it used the same meter or provider.
---
 .../metrics/_internal/__init__.py             | 187 ++++++++++--------
 1 file changed, 103 insertions(+), 84 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
index e6a8d9f..71fcaaf 100644
--- a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
@@ -179,29 +179,32 @@ class _ProxyMeterProvider(MeterProvider):
         attributes: Optional[Attributes] = None,
     ) -> "Meter":
         with self._lock:
-            if self._real_meter_provider is not None:
-                return _get_real_meter(
-                    self._real_meter_provider,
+            if self._real_meter_provider is None:
+                meter = _ProxyMeter(
                     name,
-                    version,
-                    schema_url,
-                    attributes,
+                    version=version,
+                    schema_url=schema_url,
+                    attributes=attributes,
                 )
+                self._meters.append(meter)
+                return meter
 
-            meter = _ProxyMeter(
-                name,
-                version=version,
-                schema_url=schema_url,
-                attributes=attributes,
-            )
-            self._meters.append(meter)
-            return meter
+        # not under the lock, as it may log
+        return _get_real_meter(
+            self._real_meter_provider,
+            name,
+            version,
+            schema_url,
+            attributes,
+        )
 
     def on_set_meter_provider(self, meter_provider: MeterProvider) -> None:
         with self._lock:
             self._real_meter_provider = meter_provider
-            for meter in self._meters:
-                meter.on_set_meter_provider(meter_provider)
+
+        # not under the lock, as it may log
+        for meter in self._meters:
+            meter.on_set_meter_provider(meter_provider)
 
 
 @dataclass
@@ -558,15 +561,17 @@ class _ProxyMeter(Meter):
 
         with self._lock:
             self._real_meter = real_meter
-            # notify all proxy instruments of the new meter so they can create
-            # real instruments to back themselves
-            for instrument in self._instruments:
-                try:
-                    instrument.on_meter_set(real_meter)
-                # An instrument that cannot be created must not keep the
-                # others, or the provider, from being set.
-                except Exception:  # pylint: disable=broad-exception-caught
-                    _logger.exception("Failed to create a proxied instrument")
+
+        # notify all proxy instruments of the new meter so they can create
+        # real instruments to back themselves (not under the lock, as they
+        # may log)
+        for instrument in self._instruments:
+            try:
+                instrument.on_meter_set(real_meter)
+            # An instrument that cannot be created must not keep the
+            # others, or the provider, from being set.
+            except Exception:  # pylint: disable=broad-exception-caught
+                _logger.exception("Failed to create a proxied instrument")
 
     def create_counter(
         self,
@@ -575,11 +580,13 @@ class _ProxyMeter(Meter):
         description: str = "",
     ) -> Counter:
         with self._lock:
-            if self._real_meter:
-                return self._real_meter.create_counter(name, unit, description)
-            proxy = _ProxyCounter(name, unit, description)
-            self._instruments.append(proxy)
-            return proxy
+            if not self._real_meter:
+                proxy = _ProxyCounter(name, unit, description)
+                self._instruments.append(proxy)
+                return proxy
+
+        # not under the lock, as it may log
+        return self._real_meter.create_counter(name, unit, description)
 
     def create_up_down_counter(
         self,
@@ -588,13 +595,15 @@ class _ProxyMeter(Meter):
         description: str = "",
     ) -> UpDownCounter:
         with self._lock:
-            if self._real_meter:
-                return self._real_meter.create_up_down_counter(
-                    name, unit, description
-                )
-            proxy = _ProxyUpDownCounter(name, unit, description)
-            self._instruments.append(proxy)
-            return proxy
+            if not self._real_meter:
+                proxy = _ProxyUpDownCounter(name, unit, description)
+                self._instruments.append(proxy)
+                return proxy
+
+        # not under the lock, as it may log
+        return self._real_meter.create_up_down_counter(
+            name, unit, description
+        )
 
     def create_observable_counter(
         self,
@@ -604,15 +613,17 @@ class _ProxyMeter(Meter):
         description: str = "",
     ) -> ObservableCounter:
         with self._lock:
-            if self._real_meter:
-                return self._real_meter.create_observable_counter(
-                    name, callbacks, unit, description
+            if not self._real_meter:
+                proxy = _ProxyObservableCounter(
+                    name, callbacks, unit=unit, description=description
                 )
-            proxy = _ProxyObservableCounter(
-                name, callbacks, unit=unit, description=description
-            )
-            self._instruments.append(proxy)
-            return proxy
+                self._instruments.append(proxy)
+                return proxy
+
+        # not under the lock, as it may log
+        return self._real_meter.create_observable_counter(
+            name, callbacks, unit, description
+        )
 
     def create_histogram(
         self,
@@ -623,18 +634,20 @@ class _ProxyMeter(Meter):
         explicit_bucket_boundaries_advisory: Optional[Sequence[float]] = None,
     ) -> Histogram:
         with self._lock:
-            if self._real_meter:
-                return self._real_meter.create_histogram(
-                    name,
-                    unit,
-                    description,
-                    explicit_bucket_boundaries_advisory=explicit_bucket_boundaries_advisory,
+            if not self._real_meter:
+                proxy = _ProxyHistogram(
+                    name, unit, description, explicit_bucket_boundaries_advisory
                 )
-            proxy = _ProxyHistogram(
-                name, unit, description, explicit_bucket_boundaries_advisory
-            )
-            self._instruments.append(proxy)
-            return proxy
+                self._instruments.append(proxy)
+                return proxy
+
+        # not under the lock, as it may log
+        return self._real_meter.create_histogram(
+            name,
+            unit,
+            description,
+            explicit_bucket_boundaries_advisory=explicit_bucket_boundaries_advisory,
+        )
 
     def create_gauge(
         self,
@@ -643,11 +656,13 @@ class _ProxyMeter(Meter):
         description: str = "",
     ) -> Gauge:
         with self._lock:
-            if self._real_meter:
-                return self._real_meter.create_gauge(name, unit, description)
-            proxy = _ProxyGauge(name, unit, description)
-            self._instruments.append(proxy)
-            return proxy
+            if not self._real_meter:
+                proxy = _ProxyGauge(name, unit, description)
+                self._instruments.append(proxy)
+                return proxy
+
+        # not under the lock, as it may log
+        return self._real_meter.create_gauge(name, unit, description)
 
     def create_observable_gauge(
         self,
@@ -657,15 +672,17 @@ class _ProxyMeter(Meter):
         description: str = "",
     ) -> ObservableGauge:
         with self._lock:
-            if self._real_meter:
-                return self._real_meter.create_observable_gauge(
-                    name, callbacks, unit, description
+            if not self._real_meter:
+                proxy = _ProxyObservableGauge(
+                    name, callbacks, unit=unit, description=description
                 )
-            proxy = _ProxyObservableGauge(
-                name, callbacks, unit=unit, description=description
-            )
-            self._instruments.append(proxy)
-            return proxy
+                self._instruments.append(proxy)
+                return proxy
+
+        # not under the lock, as it may log
+        return self._real_meter.create_observable_gauge(
+            name, callbacks, unit, description
+        )
 
     def create_observable_up_down_counter(
         self,
@@ -675,18 +692,20 @@ class _ProxyMeter(Meter):
         description: str = "",
     ) -> ObservableUpDownCounter:
         with self._lock:
-            if self._real_meter:
-                return self._real_meter.create_observable_up_down_counter(
-                    name,
-                    callbacks,
-                    unit,
-                    description,
+            if not self._real_meter:
+                proxy = _ProxyObservableUpDownCounter(
+                    name, callbacks, unit=unit, description=description
                 )
-            proxy = _ProxyObservableUpDownCounter(
-                name, callbacks, unit=unit, description=description
-            )
-            self._instruments.append(proxy)
-            return proxy
+                self._instruments.append(proxy)
+                return proxy
+
+        # not under the lock, as it may log
+        return self._real_meter.create_observable_up_down_counter(
+            name,
+            callbacks,
+            unit,
+            description,
+        )
 
 
 class NoOpMeter(Meter):
@@ -895,12 +914,12 @@ def _set_meter_provider(meter_provider: MeterProvider, log: bool) -> None:
         global _METER_PROVIDER  # pylint: disable=global-statement
         _METER_PROVIDER = meter_provider
 
-        # gives all proxies real instruments off the newly set meter provider
-        _PROXY_METER_PROVIDER.on_set_meter_provider(meter_provider)
-
     did_set = _METER_PROVIDER_SET_ONCE.do_once(set_mp)
 
-    if log and not did_set:
+    if did_set:
+        # gives all proxies real instruments off the newly set meter provider
+        _PROXY_METER_PROVIDER.on_set_meter_provider(meter_provider)
+    elif log:
         _logger.warning("Overriding of current MeterProvider is not allowed")
 
 
-- 
2.43.0


From eb94e4e0404d034fe8a2128f72841da8acf8b194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:52 +0000
Subject: [PATCH 84/85] fix: view conflicts are logged after the instrument was
 registered

A handler of the message that used another new instrument made the first
measurement of an instrument raise, or waited forever for a thread that
recorded one.
---
 .../_internal/metric_reader_storage.py        | 45 ++++++++++++-------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/metric_reader_storage.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/metric_reader_storage.py
index 31ef3d7..88394f8 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/metric_reader_storage.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/metric_reader_storage.py
@@ -15,7 +15,7 @@
 from logging import getLogger
 from threading import RLock
 from time import time_ns
-from typing import Dict, List, Optional
+from typing import Any, Dict, List, Optional, Tuple
 
 from opentelemetry.metrics import (
     Asynchronous,
@@ -85,6 +85,9 @@ class MetricReaderStorage:
         if instrument in self._instrument_view_instrument_matches:
             return self._instrument_view_instrument_matches[instrument]
 
+        # logged without the lock: their handlers may use other instruments
+        warnings: List[Tuple[Any, ...]] = []
+
         with self._lock:
             # double check if it was set before we held the lock
             if instrument in self._instrument_view_instrument_matches:
@@ -94,7 +97,7 @@ class MetricReaderStorage:
             view_instrument_matches = []
 
             self._handle_view_instrument_match(
-                instrument, view_instrument_matches
+                instrument, view_instrument_matches, warnings
             )
 
             # if no view targeted the instrument, use the default
@@ -112,7 +115,10 @@ class MetricReaderStorage:
                 view_instrument_matches
             )
 
-            return view_instrument_matches
+        for warning in warnings:
+            _logger.warning(*warning)
+
+        return view_instrument_matches
 
     def consume_measurement(
         self, measurement: Measurement, should_sample_exemplar: bool = True
@@ -252,13 +258,16 @@ class MetricReaderStorage:
         self,
         instrument: Instrument,
         view_instrument_matches: List["_ViewInstrumentMatch"],
+        warnings: List[Tuple[Any, ...]],
     ) -> None:
         for view in self._sdk_config.views:
             # pylint: disable=protected-access
             if not view._match(instrument):
                 continue
 
-            if not self._check_view_instrument_compatibility(view, instrument):
+            if not self._check_view_instrument_compatibility(
+                view, instrument, warnings
+            ):
                 continue
 
             new_view_instrument_match = _ViewInstrumentMatch(
@@ -278,18 +287,20 @@ class MetricReaderStorage:
                     if existing_view_instrument_match.conflicts(
                         new_view_instrument_match
                     ):
-                        _logger.warning(
-                            "Views %s and %s will cause conflicting "
-                            "metrics identities",
-                            existing_view_instrument_match._view,
-                            new_view_instrument_match._view,
+                        warnings.append(
+                            (
+                                "Views %s and %s will cause conflicting "
+                                "metrics identities",
+                                existing_view_instrument_match._view,
+                                new_view_instrument_match._view,
+                            )
                         )
 
             view_instrument_matches.append(new_view_instrument_match)
 
     @staticmethod
     def _check_view_instrument_compatibility(
-        view: View, instrument: Instrument
+        view: View, instrument: Instrument, warnings: List[Tuple[Any, ...]]
     ) -> bool:
         """
         Checks if a view and an instrument are compatible.
@@ -304,12 +315,14 @@ class MetricReaderStorage:
         if isinstance(instrument, Asynchronous) and isinstance(
             view._aggregation, ExplicitBucketHistogramAggregation
         ):
-            _logger.warning(
-                "View %s and instrument %s will produce "
-                "semantic errors when matched, the view "
-                "has not been applied.",
-                view,
-                instrument,
+            warnings.append(
+                (
+                    "View %s and instrument %s will produce "
+                    "semantic errors when matched, the view "
+                    "has not been applied.",
+                    view,
+                    instrument,
+                )
             )
             result = False
 
-- 
2.43.0


From 7759edd913721d8ddfac26b7b35c319e0fdc7eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:31 +0000
Subject: [PATCH 85/85] fix: a periodic reader without interval works in a
 forked child

If another thread was collecting or exporting during the fork, every flush
and the shutdown in the child waited for it forever.  So did the shutdown of
a reader that another thread was shutting down during the fork.
---
 .../sdk/metrics/_internal/export/__init__.py     | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index c6766ca..30ba08f 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -501,24 +501,24 @@ class PeriodicExportingMetricReader(MetricReader):
                 daemon=True,
             )
             self._daemon_thread.start()
-            if hasattr(os, "register_at_fork"):
-                weak_at_fork = weakref.WeakMethod(self._at_fork_reinit)
-
-                os.register_at_fork(
-                    after_in_child=lambda: weak_at_fork()()  # pylint: disable=unnecessary-lambda, protected-access
-                )
         elif self._export_interval_millis <= 0:
             raise ValueError(
                 f"interval value {self._export_interval_millis} is invalid \
                 and needs to be larger than zero."
             )
+        if hasattr(os, "register_at_fork"):
+            weak_at_fork = weakref.WeakMethod(self._at_fork_reinit)
+
+            os.register_at_fork(
+                after_in_child=lambda: weak_at_fork()()  # pylint: disable=unnecessary-lambda, protected-access
+            )
 
     def _at_fork_reinit(self):
-        if self._shutdown_event.is_set():
-            return
         # another thread may have held them
         self._export_lock = Lock()
         self._collect_lock = Lock()
+        if self._daemon_thread is None or self._shutdown_event.is_set():
+            return
         self._shutdown_event = Event()
         self._daemon_thread = Thread(
             name="OtelPeriodicExportingMetricReader",
-- 
2.43.0

