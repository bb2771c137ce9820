From f19aee479ab37978642aaf9f32a93f8db7ad74a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:13 +0000
Subject: [PATCH 01/36] fix: build the new baggage context under the span lock

Concurrent set_baggage_item() calls on one span read the same context and
overwrote each other, losing baggage items.
---
 jaeger_client/span.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/span.py b/jaeger_client/span.py
index 65ff161..1bb7b9b 100644
--- a/jaeger_client/span.py
+++ b/jaeger_client/span.py
@@ -149,10 +149,11 @@ class Span(opentracing.Span):
         return self
 
     def set_baggage_item(self, key: str, value: Optional[str]) -> 'Span':
-        prev_value = self.get_baggage_item(key=key)
-        new_context = self.context.with_baggage_item(key=key, value=value)
+        # The context is immutable, so a new one is built from the current one. Both steps
+        # must happen under the lock, otherwise concurrent updates overwrite each other.
         with self.update_lock:
-            self._context = new_context
+            prev_value = self.get_baggage_item(key=key)
+            self._context = self.context.with_baggage_item(key=key, value=value)
         if self.is_sampled():
             logs = {
                 'event': 'baggage',
-- 
2.43.0


From 73b8e56d58dd9f217703407917bce6d793aa8a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:15 +0000
Subject: [PATCH 02/36] fix: copy span tags and logs into the batch

The batch referenced the live lists of the span and is serialized after the
span lock is released, so a late set_tag()/log_kv() could corrupt the packet
(list header and number of elements disagree).
---
 jaeger_client/thrift.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jaeger_client/thrift.py b/jaeger_client/thrift.py
index fbe07ff..7664404 100644
--- a/jaeger_client/thrift.py
+++ b/jaeger_client/thrift.py
@@ -213,8 +213,10 @@ def make_jaeger_batch(spans, process):
                 flags=span.context.flags,
                 startTime=timestamp_micros(span.start_time),
                 duration=timestamp_micros(span.end_time - span.start_time),
-                tags=span.tags,  # TODO
-                logs=span.logs,  # TODO
+                # copies, as the span's own lists can still grow once the lock is released,
+                # and the batch is only serialized after that
+                tags=list(span.tags),
+                logs=list(span.logs),
             )
         batch.spans.append(jaeger_span)
     return batch
-- 
2.43.0


From e9c14b81e6dcc04a99e2180ac77e59839d1e102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:18 +0000
Subject: [PATCH 03/36] fix: record integers that do not fit into i64 as string
 tags

An integer tag outside of the int64 range made the serialization of the
whole batch fail, and all spans of the batch were lost.
---
 jaeger_client/thrift.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/thrift.py b/jaeger_client/thrift.py
index 7664404..f781aef 100644
--- a/jaeger_client/thrift.py
+++ b/jaeger_client/thrift.py
@@ -22,6 +22,7 @@ import jaeger_client.thrift_gen.sampling.SamplingManager as sampling_manager
 _max_signed_port = (1 << 15) - 1
 _max_unsigned_port = (1 << 16)
 _max_signed_id = (1 << 63) - 1
+_min_signed_id = -(1 << 63)
 _max_unsigned_id = (1 << 64)
 
 
@@ -66,7 +67,7 @@ def make_tag(key, value, max_length, max_traceback_length):
             key=key,
             value=value
         )
-    elif isinstance(value, int):
+    elif isinstance(value, int) and _min_signed_id <= value <= _max_signed_id:
         return _make_long_tag(
             key=key,
             value=value
-- 
2.43.0


From 40b6924fed38179cf28a579fd8ab212f416f729e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:48 +0000
Subject: [PATCH 04/36] fix: report trace headers of a wrong type as corrupted

A tuple, or with url encoding anything but a string, escaped from extract()
as a TypeError/AttributeError instead of SpanContextCorruptedException, and
the documented array of one string was refused by the HTTP codec.
---
 jaeger_client/codecs.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index 3f11755..69dd7a8 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -88,25 +88,21 @@ class TextCodec(Codec):
         for key, value in carrier.items():
             uc_key = key.lower()
             if uc_key == self.trace_id_header:
-                if self.url_encoding:
-                    value = urllib.parse.unquote(value)
+                value = self._unquote(value)
                 trace_id, span_id, parent_id, flags = \
                     span_context_from_string(value)
             elif uc_key.startswith(self.baggage_prefix):
-                if self.url_encoding:
-                    value = urllib.parse.unquote(value)
+                value = self._unquote(value)
                 attr_key = key[self.prefix_length:]
                 if baggage is None:
                     baggage = {attr_key.lower(): value}
                 else:
                     baggage[attr_key.lower()] = value
             elif uc_key == self.debug_id_header:
-                if self.url_encoding:
-                    value = urllib.parse.unquote(value)
+                value = self._unquote(value)
                 debug_id = value
             elif uc_key == self.baggage_header:
-                if self.url_encoding:
-                    value = urllib.parse.unquote(value)
+                value = self._unquote(value)
                 baggage = self._parse_baggage_header(value, baggage)
         if not trace_id or not span_id:
             # reset all IDs
@@ -117,6 +113,11 @@ class TextCodec(Codec):
                            parent_id=parent_id, flags=flags,
                            baggage=baggage, debug_id=debug_id)
 
+    def _unquote(self, value):
+        if self.url_encoding and isinstance(value, (str, bytes)):
+            return urllib.parse.unquote(value)
+        return value
+
     def _parse_baggage_header(self, header, baggage):
         for part in header.split(','):
             kv = part.strip().split('=')
@@ -231,11 +232,11 @@ def span_context_from_string(value):
         # sometimes headers are presented as arrays of values
         if len(value) > 1:
             raise SpanContextCorruptedException(
-                'trace context must be a string or array of 1: "%s"' % value)
+                'trace context must be a string or array of 1: "%s"' % (value,))
         value = value[0]
     if not isinstance(value, (str,)):
         raise SpanContextCorruptedException(
-            'trace context not a string "%s"' % value)
+            'trace context not a string "%s"' % (value,))
     parts = value.split(':')
     if len(parts) != 4:
         raise SpanContextCorruptedException(
@@ -307,7 +308,7 @@ class ZipkinCodec(Codec):
 def header_to_hex(header):
     if not isinstance(header, (str,)):
         raise SpanContextCorruptedException(
-            'malformed trace context "%s", expected hex string' % header)
+            'malformed trace context "%s", expected hex string' % (header,))
 
     try:
         return int(header, 16)
-- 
2.43.0


From 206d46e82e9d11fd66f7e90dd341f8cc0b009bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:51 +0000
Subject: [PATCH 05/36] fix: refuse propagated ids and flags that do not fit
 the wire format

Negative or oversized ids were accepted from headers, and later broke the
encoding of the whole batch (and of the binary carrier).
---
 jaeger_client/codecs.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index 69dd7a8..94ca6ba 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -20,6 +20,8 @@ from opentracing import (
     SpanContextCorruptedException,
 )
 from .constants import (
+    _max_id_bits,
+    _max_trace_id_bits,
     BAGGAGE_HEADER_KEY,
     BAGGAGE_HEADER_PREFIX,
     DEBUG_ID_HEADER_KEY,
@@ -30,6 +32,11 @@ from .constants import SAMPLED_FLAG, DEBUG_FLAG
 
 import urllib.parse
 
+# Largest values the wire formats have room for.
+_max_trace_id = (1 << _max_trace_id_bits) - 1
+_max_id = (1 << _max_id_bits) - 1
+_max_flags = 0xFF
+
 
 class Codec(object):
     def inject(self, span_context, carrier):
@@ -246,7 +253,9 @@ def span_context_from_string(value):
         span_id = int(parts[1], 16)
         parent_id = int(parts[2], 16)
         flags = int(parts[3], 16)
-        if trace_id < 1 or span_id < 1 or parent_id < 0 or flags < 0:
+        if trace_id < 1 or span_id < 1 or parent_id < 0 or flags < 0 \
+                or trace_id > _max_trace_id or span_id > _max_id or parent_id > _max_id \
+                or flags > _max_flags:
             raise SpanContextCorruptedException(
                 'malformed trace context "%s"' % value)
         if parent_id == 0:
@@ -305,16 +314,20 @@ class ZipkinCodec(Codec):
                            baggage=None)
 
 
-def header_to_hex(header):
+def header_to_hex(header, max_value=_max_trace_id):
     if not isinstance(header, (str,)):
         raise SpanContextCorruptedException(
             'malformed trace context "%s", expected hex string' % (header,))
 
     try:
-        return int(header, 16)
+        value = int(header, 16)
     except ValueError:
         raise SpanContextCorruptedException(
             'malformed trace context "%s", expected hex string' % header)
+    if value < 0 or value > max_value:
+        raise SpanContextCorruptedException(
+            'malformed trace context "%s", out of range' % header)
+    return value
 
 
 class B3Codec(Codec):
@@ -364,9 +377,9 @@ class B3Codec(Codec):
             if lower_key == self._trace_header_lc:
                 trace_id = header_to_hex(header_value)
             elif lower_key == self._span_header_lc:
-                span_id = header_to_hex(header_value)
+                span_id = header_to_hex(header_value, max_value=_max_id)
             elif lower_key == self._parent_span_header_lc:
-                parent_id = header_to_hex(header_value)
+                parent_id = header_to_hex(header_value, max_value=_max_id)
             elif lower_key == self._sampled_header_lc and header_value == '1':
                 flags |= SAMPLED_FLAG
             elif lower_key == self._flags_header_lc and header_value == '1':
-- 
2.43.0


From 1b924963fcc0af8bc61777b576b57b146be52cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:44 +0000
Subject: [PATCH 06/36] fix: report malformed binary carriers as corrupted

Truncated or non-utf8 carriers escaped from extract() as struct.error or
UnicodeDecodeError. The length of a baggage item was read as signed although
it is written as unsigned, so a length of -4 consumed no input and extract()
looped up to 2^32 times on a 45 byte carrier.
---
 jaeger_client/codecs.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index 94ca6ba..e4f137f 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -163,6 +163,12 @@ class BinaryCodec(Codec):
     def extract(self, carrier):
         if not isinstance(carrier, bytearray):
             raise InvalidCarrierException('carrier not a bytearray')
+        try:
+            return self._extract(carrier)
+        except (struct.error, UnicodeDecodeError) as e:
+            raise SpanContextCorruptedException('malformed binary trace context: %s' % e)
+
+    def _extract(self, carrier):
         baggage = {}
         high_trace_id, low_trace_id, span_id, parent_id, flags, baggage_count = \
             struct.unpack('>QQQQBI', carrier[:37])
@@ -205,10 +211,13 @@ class BinaryCodec(Codec):
         return key, value, bytes_read
 
     def _read_kv(self, data):
-        data_len = struct.unpack('>i', data[:4])[0]
-        data_value = struct.unpack('>' + 'c' * data_len, data[4:4 + data_len])
+        data_len = struct.unpack('>I', data[:4])[0]
         bytes_read = 4 + data_len
-        return b''.join(data_value).decode('utf-8'), bytes_read
+        data_value = data[4:bytes_read]
+        if len(data_value) != data_len:
+            raise SpanContextCorruptedException(
+                'malformed binary trace context: truncated baggage')
+        return data_value.decode('utf-8'), bytes_read
 
 
 def span_context_to_string(trace_id, span_id, parent_id, flags):
-- 
2.43.0


From b125f6aa15175dd93e61c6170242a734a838ed6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:46 +0000
Subject: [PATCH 07/36] fix: resolve the future of submit() when the function
 raises

set_exc_info() does not exist on tornado futures any more, so a synchronous
exception of the function left the returned future pending forever.
---
 jaeger_client/ioloop_util.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/jaeger_client/ioloop_util.py b/jaeger_client/ioloop_util.py
index eb73b6f..11d7194 100644
--- a/jaeger_client/ioloop_util.py
+++ b/jaeger_client/ioloop_util.py
@@ -13,7 +13,6 @@
 # limitations under the License.
 
 
-import sys
 from tornado import gen
 from tornado.concurrent import Future
 
@@ -33,13 +32,10 @@ def submit(fn, io_loop, *args, **kwargs):
         """Execute fn on the IOLoop."""
         try:
             result = gen.maybe_future(fn(*args, **kwargs))
-        except Exception:
+        except Exception as e:
             # The function we ran didn't return a future and instead raised
-            # an exception. Let's pretend that it returned this dummy
-            # future with our stack trace.
-            f = gen.Future()
-            f.set_exc_info(sys.exc_info())
-            on_done(f)
+            # an exception.
+            future.set_exception(e)
         else:
             result.add_done_callback(on_done)
 
-- 
2.43.0


From 0957906124795e001cdd625efd115143c0f93a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:48 +0000
Subject: [PATCH 08/36] fix: take a snapshot of the throttled operations under
 the lock

The live view was iterated after the lock had been released. A debug span of
a new operation in another thread then failed the poll with 'dictionary
changed size during iteration', and could keep the polling from starting.
---
 jaeger_client/throttler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/throttler.py b/jaeger_client/throttler.py
index 6866e4b..2642a34 100644
--- a/jaeger_client/throttler.py
+++ b/jaeger_client/throttler.py
@@ -117,7 +117,7 @@ class RemoteThrottler(Throttler):
 
     def _operations(self):
         with self.lock:
-            return self.credits.keys()
+            return list(self.credits.keys())
 
     def _delayed_polling(self):
         def callback():
-- 
2.43.0


From eb7c7ad6d1c0d7903e3c68b750d5452c29fd36e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:51 +0000
Subject: [PATCH 09/36] fix: close the throttler together with the tracer

It kept polling the agent for credits after Tracer.close().
---
 jaeger_client/tracer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jaeger_client/tracer.py b/jaeger_client/tracer.py
index 1c6c002..08dddee 100644
--- a/jaeger_client/tracer.py
+++ b/jaeger_client/tracer.py
@@ -291,6 +291,8 @@ class Tracer(opentracing.Tracer):
             flush has been completed.
         """
         self.sampler.close()
+        if self.throttler:
+            self.throttler.close()
         return self.reporter.close()
 
     def _emit_span_metrics(self, span: Span, join: Optional[bool] = False) -> Span:
-- 
2.43.0


From 586843a1161609d0cec6a070518317b7c7734e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:53 +0000
Subject: [PATCH 10/36] fix: count and report agent responses that are not
 valid utf-8

The body was decoded outside of the error handling, so such a response was
neither counted as a failure nor reported.
---
 jaeger_client/sampler.py   | 9 +++------
 jaeger_client/throttler.py | 8 +++-----
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index 355f853..d99823b 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -432,15 +432,12 @@ class RemoteControlledSampler(Sampler):
             return
 
         response = future.result()
-
         # In Python 3.5 response.body is of type bytes and json.loads() does only support str
         # See: https://github.com/jaegertracing/jaeger-client-python/issues/180
-        if hasattr(response.body, 'decode') and callable(response.body.decode):
-            response_body = response.body.decode('utf-8')
-        else:
-            response_body = response.body
-
+        response_body = response.body
         try:
+            if hasattr(response_body, 'decode') and callable(response_body.decode):
+                response_body = response_body.decode('utf-8')
             sampling_strategies_response = json.loads(response_body)
             self.metrics.sampler_retrieved(1)
         except Exception as e:
diff --git a/jaeger_client/throttler.py b/jaeger_client/throttler.py
index 2642a34..f39e11e 100644
--- a/jaeger_client/throttler.py
+++ b/jaeger_client/throttler.py
@@ -157,12 +157,10 @@ class RemoteThrottler(Throttler):
         response = future.result()
         # In Python 3.5 response.body is of type bytes and json.loads() does only support str
         # See: https://github.com/jaegertracing/jaeger-client-python/issues/180
-        if hasattr(response.body, 'decode') and callable(response.body.decode):
-            response_body = response.body.decode('utf-8')
-        else:
-            response_body = response.body
-
+        response_body = response.body
         try:
+            if hasattr(response_body, 'decode') and callable(response_body.decode):
+                response_body = response_body.decode('utf-8')
             throttling_response = json.loads(response_body)
             self.logger.debug('Received throttling response: %s',
                               throttling_response)
-- 
2.43.0


From 1b76783c4fc5678d63680ce16335e7bdf20c9e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:35 +0000
Subject: [PATCH 11/36] fix: accept all supported keys when validating the
 config

validate=True refused 'metrics' (documented in the class docstring),
'max_operations' and 'debug_id_header', which the config reads.
---
 jaeger_client/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jaeger_client/config.py b/jaeger_client/config.py
index c70f56a..becd7ca 100644
--- a/jaeger_client/config.py
+++ b/jaeger_client/config.py
@@ -124,6 +124,7 @@ class Config(object):
 
     def _validate_config(self, config):
         allowed_keys = ['logging',
+                        'metrics',
                         'local_agent',
                         'sampler',
                         'tags',
@@ -135,7 +136,9 @@ class Config(object):
                         'max_traceback_length',
                         'reporter_flush_interval',
                         'sampling_refresh_interval',
+                        'max_operations',
                         'trace_id_header',
+                        'debug_id_header',
                         'generate_128bit_trace_id',
                         'baggage_header_prefix',
                         'service_name',
-- 
2.43.0


From fef00499644691d960b5bc3e2a535ef35f46dd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:37 +0000
Subject: [PATCH 12/36] fix: do not write the tags from JAEGER_TAGS into the
 caller's config

---
 jaeger_client/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/config.py b/jaeger_client/config.py
index becd7ca..9ae1164 100644
--- a/jaeger_client/config.py
+++ b/jaeger_client/config.py
@@ -316,7 +316,8 @@ class Config(object):
         :return: Returns tags from config and `JAEGER_TAGS` environment variable
         to use as process-wide tracer tags
         """
-        tags = self.config.get('tags', {})
+        # a copy, as the tags from the environment must not end up in the caller's dict
+        tags = dict(self.config.get('tags') or {})
         env_tags = os.environ.get('JAEGER_TAGS', '')
         if env_tags:
             for kv in env_tags.split(','):
-- 
2.43.0


From 0ca5ce59bb2edaaae39efced29ce3cc5c42395e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:40 +0000
Subject: [PATCH 13/36] fix: do not apply a part of invalid adaptive sampling
 strategies

An invalid strategy in the middle of a response made the update fail after
the strategies before it had been applied already.
---
 jaeger_client/sampler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index d99823b..de03ed8 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -295,6 +295,8 @@ class AdaptiveSampler(Sampler):
 
     def update(self, strategies: Dict[str, Any]) -> None:
         # (NB) This function should only be called while holding a Write lock.
+        # Raises if the strategies are invalid, before any of them has been applied.
+        AdaptiveSampler(strategies, self.max_operations)
         for strategy in strategies.get(STRATEGIES_STR, []):
             operation = strategy.get(OPERATION_STR)
             lower_bound = strategies.get(DEFAULT_LOWER_BOUND_STR, DEFAULT_LOWER_BOUND)
-- 
2.43.0


From 87c77fdea988197b0854bcca5cf62f5e713d4e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:41 +0000
Subject: [PATCH 14/36] fix: do not take credits away when the clock is set
 back

A clock step of an hour made the balance negative, and nothing was sampled
until the clock caught up.
---
 jaeger_client/rate_limiter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/rate_limiter.py b/jaeger_client/rate_limiter.py
index 0778db4..1b4dfde 100644
--- a/jaeger_client/rate_limiter.py
+++ b/jaeger_client/rate_limiter.py
@@ -63,7 +63,8 @@ class RateLimiter(object):
 
     def _update_balance(self):
         current_time = self.timestamp()
-        elapsed_time = current_time - self.last_tick
+        # the wall clock can be set back
+        elapsed_time = max(0, current_time - self.last_tick)
         self.last_tick = current_time
         self.balance += elapsed_time * self.credits_per_second
         if self.balance > self.max_balance:
-- 
2.43.0


From 105614eccee2786d699dad8bbb0872b88dc1780f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:43 +0000
Subject: [PATCH 15/36] fix: ignore sampling priorities that are not numbers

set_tag('sampling.priority', None) raised TypeError into the application,
while non-numeric strings were ignored already.
---
 jaeger_client/span.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/span.py b/jaeger_client/span.py
index 1bb7b9b..d13cf4a 100644
--- a/jaeger_client/span.py
+++ b/jaeger_client/span.py
@@ -124,7 +124,7 @@ class Span(opentracing.Span):
 
         try:
             value_num = int(value)
-        except ValueError:
+        except (TypeError, ValueError, OverflowError):
             return False
         if value_num == 0:
             self.context.flags &= ~(SAMPLED_FLAG | DEBUG_FLAG)
-- 
2.43.0


From dcceb6f028765eacc67574bf54230b4aadc5f31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:45 +0000
Subject: [PATCH 16/36] fix: serialize the sampling decisions of the rate
 limiting sampler

The credits were checked and taken without a lock, so concurrent threads
could spend the same credit and exceed the limit.
---
 jaeger_client/sampler.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index de03ed8..47e1962 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -149,6 +149,7 @@ class RateLimitingSampler(Sampler):
     def __init__(self, max_traces_per_second: float = 10) -> None:
         super(RateLimitingSampler, self).__init__()
         self.rate_limiter: RateLimiter = None  # type:ignore  # value is set below
+        self._lock = Lock()
         self._init(max_traces_per_second)
 
     def _init(self, max_traces_per_second):
@@ -169,7 +170,8 @@ class RateLimitingSampler(Sampler):
             self.rate_limiter.update(max_traces_per_second, max_balance)
 
     def is_sampled(self, trace_id: int, operation: str = '') -> _IsSampledType:
-        return self.rate_limiter.check_credit(1.0), self._tags
+        with self._lock:
+            return self.rate_limiter.check_credit(1.0), self._tags
 
     def close(self) -> None:
         pass
@@ -185,10 +187,11 @@ class RateLimitingSampler(Sampler):
         return d1 == d2
 
     def update(self, max_traces_per_second: float) -> bool:
-        if self.traces_per_second == max_traces_per_second:
-            return False
-        self._init(max_traces_per_second)
-        return True
+        with self._lock:
+            if self.traces_per_second == max_traces_per_second:
+                return False
+            self._init(max_traces_per_second)
+            return True
 
     def __str__(self) -> str:
         return 'RateLimitingSampler(%s)' % self.traces_per_second
-- 
2.43.0


From 3f1415b3f5673cfbcca99c3afb7eac9523dbb02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:47 +0000
Subject: [PATCH 17/36] fix: let repeated close() of the reporter complete

The second stop marker was never consumed, so the future of the second
close() (e.g. of another tracer sharing the reporter) stayed pending.
---
 jaeger_client/reporter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/reporter.py b/jaeger_client/reporter.py
index 6888aa8..53f2216 100644
--- a/jaeger_client/reporter.py
+++ b/jaeger_client/reporter.py
@@ -236,8 +236,11 @@ class Reporter(BaseReporter):
     def _flush(self):
         # stopping here ensures we don't lose spans from pending _report_span_from_ioloop callbacks
         with self.stop_lock:
+            already_stopped = self.stopped
             self.stopped = True
-        yield self.queue.put(self.stop)
+        if not already_stopped:
+            # only one, as nothing is consumed from the queue after that
+            yield self.queue.put(self.stop)
         yield self.queue.join()
 
 
-- 
2.43.0


From e2d9dddeb5446bcee0aa64a0c07a84b4c831846e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:49 +0000
Subject: [PATCH 18/36] fix: do not call application code while holding the
 span lock

The conversion of a tag value to a string and the logging handlers run
application code. When that used the same span (repr() of an object that
logs to the active span, a handler that records log messages on it), the
thread waited for its own lock forever.
---
 jaeger_client/span.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/jaeger_client/span.py b/jaeger_client/span.py
index d13cf4a..212482c 100644
--- a/jaeger_client/span.py
+++ b/jaeger_client/span.py
@@ -87,11 +87,15 @@ class Span(opentracing.Span):
             return
 
         with self.update_lock:
-            if self.finished:
-                logger.warning('Span has already been finished; will not be reported again.')
-                return
-            self.finished = True
-            self.end_time = finish_time or time.time()
+            already_finished = self.finished
+            if not already_finished:
+                self.finished = True
+                self.end_time = finish_time or time.time()
+
+        if already_finished:
+            # not under the lock, as a logging handler can use the span
+            logger.warning('Span has already been finished; will not be reported again.')
+            return
 
         self.tracer.report_span(self)
 
@@ -100,16 +104,19 @@ class Span(opentracing.Span):
         :param key:
         :param value:
         """
-        with self.update_lock:
-            if key == ext_tags.SAMPLING_PRIORITY and not self._set_sampling_priority(value):
-                return self
-            if self.is_sampled():
-                tag = thrift.make_tag(
-                    key=key,
-                    value=value,
-                    max_length=self.tracer.max_tag_value_length,
-                    max_traceback_length=self._tracer.max_traceback_length,
-                )
+        if key == ext_tags.SAMPLING_PRIORITY:
+            with self.update_lock:
+                if not self._set_sampling_priority(value):
+                    return self
+        if self.is_sampled():
+            # not under the lock, as the string conversion of the value can use the span
+            tag = thrift.make_tag(
+                key=key,
+                value=value,
+                max_length=self.tracer.max_tag_value_length,
+                max_traceback_length=self._tracer.max_traceback_length,
+            )
+            with self.update_lock:
                 self.tags.append(tag)
         return self
 
-- 
2.43.0


From 5589963979c80d63ea1445f53cba4c92168d3bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:19 +0000
Subject: [PATCH 19/36] fix: do not send the rest of a failed batch with the
 next one

A batch that could not be serialized left its first bytes in the transport
buffer. The next batch was appended to them, so the agent could not decode
that packet and its spans were lost too, though counted as successful.
---
 jaeger_client/local_agent_net.py | 8 ++++++--
 jaeger_client/reporter.py        | 8 +++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/local_agent_net.py b/jaeger_client/local_agent_net.py
index 7f95606..b369827 100644
--- a/jaeger_client/local_agent_net.py
+++ b/jaeger_client/local_agent_net.py
@@ -78,8 +78,8 @@ class LocalAgentSender(TBufferedTransport):
 
         # UDP reporting - this will only get written to after our flush() call.
         # We are buffering things up because we are a TBufferedTransport.
-        udp = TUDPTransport(host, reporting_port)
-        TBufferedTransport.__init__(self, udp)
+        self._udp = TUDPTransport(host, reporting_port)
+        TBufferedTransport.__init__(self, self._udp)
 
     def _create_new_thread_loop(self):
         """
@@ -91,6 +91,10 @@ class LocalAgentSender(TBufferedTransport):
             self._thread_loop.start()
         return self._thread_loop._io_loop
 
+    def discard(self):
+        """Drop data that has been written, but not flushed."""
+        TBufferedTransport.__init__(self, self._udp)
+
     def readFrame(self):
         """Empty read frame that is never ready"""
         return Future()
diff --git a/jaeger_client/reporter.py b/jaeger_client/reporter.py
index 53f2216..59e46fd 100644
--- a/jaeger_client/reporter.py
+++ b/jaeger_client/reporter.py
@@ -223,7 +223,13 @@ class Reporter(BaseReporter):
         Send batch of spans out via thrift transport. Any exceptions thrown
         will be caught above in the exception handler of _submit().
         """
-        return self.agent.emitBatch(batch)
+        try:
+            return self.agent.emitBatch(batch)
+        except Exception:
+            # a batch that failed half way must not become a part of the next packet
+            if hasattr(self._channel, 'discard'):
+                self._channel.discard()
+            raise
 
     def close(self) -> Future:
         """
-- 
2.43.0


From 4d0d21f494c7532dcb1411159056ed0379acf11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:05 +0000
Subject: [PATCH 20/36] fix: consult the sampler when the parent carries only
 baggage

---
 jaeger_client/tracer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jaeger_client/tracer.py b/jaeger_client/tracer.py
index 08dddee..f2c9c79 100644
--- a/jaeger_client/tracer.py
+++ b/jaeger_client/tracer.py
@@ -187,7 +187,8 @@ class Tracer(opentracing.Tracer):
             parent_id = None
             flags = 0
             baggage = None
-            if parent is None:
+            # the parent can also be just a carrier of baggage
+            if parent is None or not parent.debug_id:
                 sampled, sampler_tags = \
                     self.sampler.is_sampled(trace_id, operation_name or '')
                 if sampled:
@@ -195,7 +196,7 @@ class Tracer(opentracing.Tracer):
                     tags = tags or {}
                     for k, v in sampler_tags.items():
                         tags[k] = v
-            elif parent.debug_id and self.is_debug_allowed(operation_name):
+            elif self.is_debug_allowed(operation_name):
                 flags = SAMPLED_FLAG | DEBUG_FLAG
                 tags = tags or {}
                 tags[self.debug_id_header] = parent.debug_id
-- 
2.43.0


From 13c94f31960d917a7e2894c3f09b54fac944848c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:53 +0000
Subject: [PATCH 21/36] fix: leave references without a trace out of the
 reported span

---
 jaeger_client/thrift.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jaeger_client/thrift.py b/jaeger_client/thrift.py
index f781aef..f911b9e 100644
--- a/jaeger_client/thrift.py
+++ b/jaeger_client/thrift.py
@@ -188,6 +188,9 @@ def make_references(references):
         return None
     list_of_span_refs = list()
     for span_ref in references:
+        if not span_ref.referenced_context.has_trace:
+            # e.g. a context carrying only baggage: it has no ids, which are required fields
+            continue
         list_of_span_refs.append(ttypes.SpanRef(
             refType=make_ref_type(span_ref.type),
             traceIdLow=id_to_int(_id_to_low(span_ref.referenced_context.trace_id)),
-- 
2.43.0


From 46ec6e90b978a452b40e567d0603d8461ab96d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:00 +0000
Subject: [PATCH 22/36] fix: let close() of a composite of no reporters
 complete

---
 jaeger_client/reporter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jaeger_client/reporter.py b/jaeger_client/reporter.py
index 59e46fd..618a47d 100644
--- a/jaeger_client/reporter.py
+++ b/jaeger_client/reporter.py
@@ -292,5 +292,7 @@ class CompositeReporter(BaseReporter):
         for reporter in self.reporters:
             f = reporter.close()
             f.add_done_callback(on_close)
+        if not self.reporters:
+            future.set_result(True)
 
         return future
-- 
2.43.0


From d7b94e913247990f756f55f8ac06bfc44508e9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:48 +0000
Subject: [PATCH 23/36] fix: do not apply a part of a malformed throttling
 response

---
 jaeger_client/throttler.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/throttler.py b/jaeger_client/throttler.py
index f39e11e..7a84a3e 100644
--- a/jaeger_client/throttler.py
+++ b/jaeger_client/throttler.py
@@ -174,10 +174,13 @@ class RemoteThrottler(Throttler):
             return
 
     def _update_credits(self, response):
+        # nothing of the response is applied when a part of it is malformed
+        balances: dict = {}
+        for op_balance in response['balances']:
+            op = op_balance['operation']
+            balances[op] = balances.get(op, 0) + op_balance['balance']
         with self.lock:
-            for op_balance in response['balances']:
-                op = op_balance['operation']
-                balance = op_balance['balance']
+            for op, balance in balances.items():
                 if op not in self.credits:
                     self.credits[op] = 0
                 self.credits[op] += balance
-- 
2.43.0


From 5604f46a80a4b34752e448b5ea1a2e29655c8c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:20 +0000
Subject: [PATCH 24/36] fix: a sampler or throttler closed before its first
 poll does not poll

The first poll comes after a random delay.  When the component was closed
meanwhile, it still sent one request to the agent, as only the periodic
polling that follows looked at whether it was running.
---
 jaeger_client/sampler.py   | 3 +++
 jaeger_client/throttler.py | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index 47e1962..435dbed 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -410,6 +410,9 @@ class RemoteControlledSampler(Sampler):
                 'Delaying sampling strategy polling by %d sec', delay)
 
     def _delayed_polling(self):
+        # closed while waiting for the first poll
+        if not self.running:
+            return
         periodic = self._create_periodic_callback()
         self._poll_sampling_manager()  # Initialize sampler now
         with self.lock:
diff --git a/jaeger_client/throttler.py b/jaeger_client/throttler.py
index 7a84a3e..1afd9fc 100644
--- a/jaeger_client/throttler.py
+++ b/jaeger_client/throttler.py
@@ -120,6 +120,10 @@ class RemoteThrottler(Throttler):
             return list(self.credits.keys())
 
     def _delayed_polling(self):
+        # closed while waiting for the first poll
+        if not self.running:
+            return
+
         def callback():
             self._fetch_credits(self._operations())
 
-- 
2.43.0


From dbc4af713ab53cf089e5f166b4f81e2350299764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 25/36] fix: do not add the service label to the tags dict of
 the caller

---
 jaeger_client/metrics/prometheus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/metrics/prometheus.py b/jaeger_client/metrics/prometheus.py
index a4f3339..4e6c3c9 100644
--- a/jaeger_client/metrics/prometheus.py
+++ b/jaeger_client/metrics/prometheus.py
@@ -40,7 +40,8 @@ class PrometheusMetricsFactory(MetricsFactory):
             if tags is None:
                 tags = {'service': self._service_name_label}
             else:
-                tags['service'] = self._service_name_label
+                # a copy, as the label must not end up in the caller's dict
+                tags = dict(tags, service=self._service_name_label)
 
         label_name_list = self._get_tag_name_list(tags)
         cache_key = name + '@@'.join(label_name_list)
-- 
2.43.0


From 79642adf90138268e664783eee2b5fd223db9959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:39 +0000
Subject: [PATCH 26/36] fix: let the conversion of a sampling priority use the
 span

---
 jaeger_client/span.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/span.py b/jaeger_client/span.py
index 212482c..bf72768 100644
--- a/jaeger_client/span.py
+++ b/jaeger_client/span.py
@@ -53,7 +53,8 @@ class Span(opentracing.Span):
         self.start_time = start_time or time.time()
         self.end_time: Optional[float] = None
         self.finished = False
-        self.update_lock = threading.Lock()
+        # reentrant, as the conversion of a value or a metric of the throttler can use the span
+        self.update_lock = threading.RLock()
         self.references = references
         # we store tags and logs as Thrift objects to avoid extra allocations
         self.tags: List[ttypes.Tag] = []
-- 
2.43.0


From 0b33d97369fa0f2d5e3dc3820549436d7888c89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:39 +0000
Subject: [PATCH 27/36] fix: let logging handlers and metrics called by the
 remote sampler start spans

---
 jaeger_client/sampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index 435dbed..52f20d2 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -17,7 +17,7 @@ import json
 import logging
 import random
 
-from threading import Lock
+from threading import Lock, RLock
 from tornado.ioloop import PeriodicCallback
 from .constants import (
     _max_id_bits,
@@ -374,7 +374,8 @@ class RemoteControlledSampler(Sampler):
         else:
             self.sampler.is_sampled(0)  # assert we got valid sampler API
 
-        self.lock = Lock()
+        # reentrant, as logging handlers and metrics called under it can start spans
+        self.lock = RLock()
         self.running = True
         self.periodic = None
 
-- 
2.43.0


From dd8e63426470a040894f6e3ceac073db8ab93aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:39 +0000
Subject: [PATCH 28/36] fix: let logging handlers and metrics called by the
 throttler start debug spans

---
 jaeger_client/throttler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jaeger_client/throttler.py b/jaeger_client/throttler.py
index 1afd9fc..a29ee73 100644
--- a/jaeger_client/throttler.py
+++ b/jaeger_client/throttler.py
@@ -15,7 +15,7 @@
 import json
 import logging
 import random
-from threading import Lock
+from threading import RLock
 from typing import Any, Optional
 
 from tornado.ioloop import PeriodicCallback
@@ -68,7 +68,8 @@ class RemoteThrottler(Throttler):
         self.metrics = ThrottlerMetrics(metrics_factory)
         self.error_reporter = kwargs.get('error_reporter', ErrorReporter(Metrics()))
         self.credits: dict = {}
-        self.lock = Lock()
+        # reentrant, as logging handlers and metrics called under it can start debug spans
+        self.lock = RLock()
         self.running = True
         self.periodic = None
 
-- 
2.43.0


From 84f81176eeaa0c50fa804d6fde6a8b0dcfe9c1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:34 +0000
Subject: [PATCH 29/36] fix: let a logging handler ask whether the tracer is
 initialized

---
 jaeger_client/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/config.py b/jaeger_client/config.py
index 9ae1164..f9426d9 100644
--- a/jaeger_client/config.py
+++ b/jaeger_client/config.py
@@ -84,7 +84,8 @@ class Config(object):
     """
 
     _initialized = False
-    _initialized_lock = threading.Lock()
+    # reentrant, as a logging handler called under it can ask whether the tracer is initialized
+    _initialized_lock = threading.RLock()
 
     def __init__(
         self,
-- 
2.43.0


From 67a445fca5b5e11370869499097831eb020d7edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:25 +0000
Subject: [PATCH 30/36] fix: count a trace as started or joined by whether the
 span has a parent

---
 jaeger_client/tracer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/tracer.py b/jaeger_client/tracer.py
index f2c9c79..f76a95a 100644
--- a/jaeger_client/tracer.py
+++ b/jaeger_client/tracer.py
@@ -221,7 +221,8 @@ class Tracer(opentracing.Tracer):
                     operation_name=operation_name or '',
                     tags=tags, start_time=start_time, references=valid_references)
 
-        self._emit_span_metrics(span=span, join=rpc_server)
+        has_parent = parent is not None and parent.has_trace
+        self._emit_span_metrics(span=span, start=not has_parent, join=has_parent and rpc_server)
 
         return span
 
@@ -296,12 +297,12 @@ class Tracer(opentracing.Tracer):
             self.throttler.close()
         return self.reporter.close()
 
-    def _emit_span_metrics(self, span: Span, join: Optional[bool] = False) -> Span:
+    def _emit_span_metrics(self, span: Span, start: bool = False, join: bool = False) -> Span:
         if span.is_sampled():
             self.metrics.spans_started_sampled(1)
         else:
             self.metrics.spans_started_not_sampled(1)
-        if not span.context.parent_id:
+        if start or join:
             if span.is_sampled():
                 if join:
                     self.metrics.traces_joined_sampled(1)
-- 
2.43.0


From 917361d6c62f866758c5445010c29b5f26b434b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:38 +0000
Subject: [PATCH 31/36] fix: keep Prometheus metrics apart whose names and tags
 join to the same text

---
 jaeger_client/metrics/prometheus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/metrics/prometheus.py b/jaeger_client/metrics/prometheus.py
index 4e6c3c9..16ef3ee 100644
--- a/jaeger_client/metrics/prometheus.py
+++ b/jaeger_client/metrics/prometheus.py
@@ -44,7 +44,7 @@ class PrometheusMetricsFactory(MetricsFactory):
                 tags = dict(tags, service=self._service_name_label)
 
         label_name_list = self._get_tag_name_list(tags)
-        cache_key = name + '@@'.join(label_name_list)
+        cache_key = (name, tuple(sorted(label_name_list)))
 
         metric = self._cache.get(cache_key)
         if metric is None:
-- 
2.43.0


From 3aee7339b3073840257a14a444894467c3c84a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:38 +0000
Subject: [PATCH 32/36] fix: call a metrics function whose truth value is false

---
 jaeger_client/metrics/metrics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/metrics/metrics.py b/jaeger_client/metrics/metrics.py
index 2ec9911..2160712 100644
--- a/jaeger_client/metrics/metrics.py
+++ b/jaeger_client/metrics/metrics.py
@@ -129,13 +129,13 @@ class Metrics(object):
             self._timing = None
 
     def count(self, key, value):
-        if self._count:
+        if self._count is not None:
             self._count(key, value)
 
     def timing(self, key, value):
-        if self._timing:
+        if self._timing is not None:
             self._timing(key, value)
 
     def gauge(self, key, value):
-        if self._gauge:
+        if self._gauge is not None:
             self._gauge(key, value)
-- 
2.43.0


From f8180ca4d9cb7557d6b525739c058e299271d98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:49 +0000
Subject: [PATCH 33/36] fix: start when the agent host name cannot be resolved
 in any way

---
 jaeger_client/TUDPTransport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/TUDPTransport.py b/jaeger_client/TUDPTransport.py
index 655801d..600735d 100644
--- a/jaeger_client/TUDPTransport.py
+++ b/jaeger_client/TUDPTransport.py
@@ -45,7 +45,7 @@ class TUDPTransport(TTransportBase, object):
             )
             if addrinfo:
                 family, type, proto, *_ = addrinfo[0]
-        except socket.gaierror:
+        except (OSError, UnicodeError):
             pass
 
         return socket.socket(family, type, proto)
-- 
2.43.0


From 1fe42def841960b06797fd164f55019ad3c09aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:49 +0000
Subject: [PATCH 34/36] fix: put an IPv6 agent address in brackets in the url

---
 jaeger_client/local_agent_net.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/local_agent_net.py b/jaeger_client/local_agent_net.py
index b369827..aad7f73 100644
--- a/jaeger_client/local_agent_net.py
+++ b/jaeger_client/local_agent_net.py
@@ -33,7 +33,10 @@ class LocalAgentHTTP(object):
     def _request(self, path, timeout=DEFAULT_TIMEOUT, args=None):
         http_client = tornado.httpclient.AsyncHTTPClient(
             defaults=dict(request_timeout=timeout))
-        url = 'http://%s:%d/%s' % (self.agent_http_host, self.agent_http_port, path)
+        host = self.agent_http_host
+        if ':' in host and not host.startswith('['):
+            host = '[%s]' % host  # an IPv6 address
+        url = 'http://%s:%d/%s' % (host, self.agent_http_port, path)
         if args:
             url = url_concat(url, args)
         return http_client.fetch(url)
-- 
2.43.0


From f4dbedb5fef05e15a85e910755f953980a0caef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:49 +0000
Subject: [PATCH 35/36] fix: report an unset sampling number as an error
 instead of raising

---
 jaeger_client/thrift.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaeger_client/thrift.py b/jaeger_client/thrift.py
index f911b9e..5d3d5cf 100644
--- a/jaeger_client/thrift.py
+++ b/jaeger_client/thrift.py
@@ -238,7 +238,7 @@ def parse_sampling_strategy(response):
         if response.probabilisticSampling is None:
             return None, 'probabilisticSampling field is None'
         sampling_rate = response.probabilisticSampling.samplingRate
-        if 0 <= sampling_rate <= 1.0:
+        if sampling_rate is not None and 0 <= sampling_rate <= 1.0:
             from jaeger_client.sampler import ProbabilisticSampler
             return ProbabilisticSampler(rate=sampling_rate), None
         return None, (
@@ -249,7 +249,7 @@ def parse_sampling_strategy(response):
         if response.rateLimitingSampling is None:
             return None, 'rateLimitingSampling field is None'
         mtps = response.rateLimitingSampling.maxTracesPerSecond
-        if 0 <= mtps < 500:
+        if mtps is not None and 0 <= mtps < 500:
             from jaeger_client.sampler import RateLimitingSampler
             return RateLimitingSampler(max_traces_per_second=mtps), None
         return None, (
-- 
2.43.0


From 7a87e475ba2dce7a0e526e570ffcf47462e92400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:49 +0000
Subject: [PATCH 36/36] fix: ask the interfaces for their address and survive
 failing address lookups

---
 jaeger_client/utils.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/jaeger_client/utils.py b/jaeger_client/utils.py
index ff464b4..e8e8d0a 100644
--- a/jaeger_client/utils.py
+++ b/jaeger_client/utils.py
@@ -66,9 +66,9 @@ def local_ip() -> Optional[str]:
 
     try:
         ip = socket.gethostbyname(socket.gethostname())
-    except IOError:
-        ip = socket.gethostbyname('localhost')
-    if ip.startswith('127.'):
+    except (IOError, UnicodeError):
+        ip = None
+    if ip is None or ip.startswith('127.'):
         ip = get_local_ip_by_interfaces()
         if ip is None:
             ip = get_local_ip_by_socket()
@@ -77,7 +77,10 @@ def local_ip() -> Optional[str]:
 
 def get_local_ip_by_socket() -> Optional[str]:
     # Explanation : https://stackoverflow.com/questions/166506
-    s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
+    try:
+        s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
+    except IOError:
+        return None
     try:
         # doesn't even have to be reachable
         s.connect(('10.255.255.255', 1))
@@ -93,7 +96,7 @@ def get_local_ip_by_interfaces() -> Optional[str]:
     ip = None
     # Check eth0, eth1, eth2, en0, ...
     interfaces = [
-        i + bytes(n) for i in (b'eth', b'en', b'wlan') for n in range(3)
+        i + str(n).encode() for i in (b'eth', b'en', b'wlan') for n in range(3)
     ]  # :(
     for interface in interfaces:
         try:
-- 
2.43.0

