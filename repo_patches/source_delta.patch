From 20612cbe12a3ae2d0fed81d3e46264b6ed52e27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 01/37] fix: do not hit maximum recursion depth when parsing
 deeply nested values

---
 httpolice/parse.py | 55 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 13 deletions(-)

diff --git a/httpolice/parse.py b/httpolice/parse.py
index 18e4816..5f9be0d 100644
--- a/httpolice/parse.py
+++ b/httpolice/parse.py
@@ -790,7 +790,7 @@ def _inner_parse(data, target_symbol, annotate_classes):
     if i == length:             # Successfully parsed up to the end of stream.
         results = _find_results(data, target_symbol, chart, i,
                                 [], annotate_classes)
-        for start_i, _, result, complaints, annotations in results:
+        for start_i, _, result, complaints, annotations in _trampoline(results):
             # There may be multiple valid parses in case of ambiguities,
             # but in practice we just want
             # the first parse that stretches to the beginning of the input.
@@ -800,8 +800,35 @@ def _inner_parse(data, target_symbol, annotate_classes):
     raise _build_parse_error(data, target_symbol, chart)
 
 
+def _trampoline(generator):
+    # `_find_results` is recursive: to produce its results, it needs those of
+    # other `_find_results` iterators. With nested input (like comments inside
+    # comments), it could easily hit maximum recursion depth. To avoid this,
+    # it doesn't call ``next()`` on those iterators, but yields them, and here
+    # we advance them for it, keeping track of the nesting in `stack`.
+    stack = [generator]
+    r = None
+    while stack:
+        try:
+            r = stack[-1].send(r)
+        except StopIteration:
+            stack.pop()
+            r = None
+        else:
+            if not isinstance(r, tuple):
+                stack.append(r)
+                r = None
+            elif len(stack) > 1:
+                stack.pop()
+            else:
+                yield r
+                r = None
+
+
 def _find_results(data, symbol, chart, end_i,
                   outer_parents, annotate_classes):
+    # This must be run with `_trampoline`.
+
     # The trivial base case is to find the parse result of a terminal.
     if isinstance(symbol, Terminal):
         if end_i > 0:
@@ -913,7 +940,7 @@ def _find_results(data, symbol, chart, end_i,
                                        annotate_classes)
 
                 # Get the next result for this symbol.
-                r = next(rs, None)
+                r = yield rs
                 if r is None:
                     # None left, so we must fall back (to ``pos + 1``)
                     # and try other results for the previous symbol.
@@ -998,14 +1025,16 @@ def _build_parse_error(data, target_symbol, chart):
                       expected=list(expected.items()), found=found)
 
 
-def _find_pivots(chart, symbol, start, stack=None):
-    if symbol.is_pivot:
-        yield symbol
-    else:
-        stack = (stack or []) + [(symbol, start)]
-        (_, items_idx, _) = chart[start]
-        parents = items_idx.get(symbol, [])
-        for (parent, _, _, parent_start) in parents:
-            if (parent, parent_start) not in stack:
-                for p in _find_pivots(chart, parent, parent_start, stack):
-                    yield p
+def _find_pivots(chart, symbol, start):
+    stack = [(symbol, start)]
+    seen = set(stack)
+    while stack:
+        (symbol, start) = stack.pop()
+        if symbol.is_pivot:
+            yield symbol
+        else:
+            (_, items_idx, _) = chart[start]
+            for (parent, _, _, parent_start) in items_idx.get(symbol, []):
+                if (parent, parent_start) not in seen:
+                    seen.add((parent, parent_start))
+                    stack.append((parent, parent_start))
-- 
2.43.0


From d297de6016cc499646a8836535865eb812670626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 02/37] fix: do not crash on Link parameters without a value

---
 httpolice/syntax/rfc8288.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httpolice/syntax/rfc8288.py b/httpolice/syntax/rfc8288.py
index 10d5c69..b5b5dea 100644
--- a/httpolice/syntax/rfc8288.py
+++ b/httpolice/syntax/rfc8288.py
@@ -23,8 +23,7 @@ def _process_params(complain, params):
                 # "occurrences after the first MUST be ignored by parsers"
                 continue
             seen.add(name)
-        if value is not None:
-            (parsed_as, value) = value
+        (parsed_as, value) = value or (None, None)
         if name == u'title' and parsed_as is token:
             complain(1307)
         if name == u'hreflang' and parsed_as is quoted_string:
@@ -34,6 +33,7 @@ def _process_params(complain, params):
             u'hreflang': hreflang, u'type': type_, u'title*': ext_value,
         }.get(name)
         if symbol is not None:
+            value = value or u''
             value = parse(value, symbol, complain, 1158,
                           name=name, value=value)
         r.append((name, value))
-- 
2.43.0


From e53e6bfbdca1265ca32c0d88322c68bf964ed12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 03/37] fix: do not crash on 451 responses whose Link has a
 malformed relation type

---
 httpolice/response.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index ba853c1..9b05d43 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -325,7 +325,8 @@ def check_response_itself(resp):
         complain(1162)
 
     if status == st.unavailable_for_legal_reasons:
-        if not any(u'blocked-by' in link.param.get(u'rel', [])
+        if not any(okay(link.param.get(u'rel')) and
+                   u'blocked-by' in link.param[u'rel']
                    for link in headers.link):
             complain(1243)
 
-- 
2.43.0


From a372af8a8043281222bc9205691a040cb1abe794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 04/37] fix: do not crash on very large Age values

---
 httpolice/inputs/streams.py | 7 +++++--
 httpolice/response.py       | 7 ++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/httpolice/inputs/streams.py b/httpolice/inputs/streams.py
index 59b1915..6ee15d6 100644
--- a/httpolice/inputs/streams.py
+++ b/httpolice/inputs/streams.py
@@ -311,8 +311,11 @@ def _exchange_time(exchange, hint):
     for resp in exchange.responses:
         if resp.headers.date.is_okay:
             if resp.headers.age.is_okay:
-                return (resp.headers.date.value +
-                        timedelta(seconds=resp.headers.age.value))
+                try:
+                    return (resp.headers.date.value +
+                            timedelta(seconds=resp.headers.age.value))
+                except OverflowError:
+                    pass
             return resp.headers.date.value
     return hint
 
diff --git a/httpolice/response.py b/httpolice/response.py
index 9b05d43..c450e2b 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -114,9 +114,10 @@ class Response(message.Message):
             return False
 
         if self.headers.date.is_okay and self.headers.age.is_okay:
-            date = self.headers.date.value
-            age = timedelta(seconds=self.headers.age.value)
-            if date + age > datetime.utcnow() + timedelta(seconds=30):
+            # ``Date + Age`` could overflow, so subtract ``Date`` instead.
+            max_age = (datetime.utcnow() + timedelta(seconds=30) -
+                       self.headers.date.value).total_seconds()
+            if self.headers.age.value > max_age:
                 self.complain(1241)
                 return None
 
-- 
2.43.0


From 9a2115a0652eea238ce4e1a72b4ce539ac47c752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:46 +0000
Subject: [PATCH 05/37] fix: do not crash on numbers that have thousands of
 digits

---
 httpolice/syntax/common.py   |  9 +++++++++
 httpolice/syntax/internal.py |  4 ++--
 httpolice/syntax/rfc6797.py  |  4 ++--
 httpolice/syntax/rfc7230.py  |  5 +++--
 httpolice/syntax/rfc7231.py  |  6 +++---
 httpolice/syntax/rfc7233.py  | 10 +++++-----
 httpolice/syntax/rfc7234.py  |  4 ++--
 7 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/httpolice/syntax/common.py b/httpolice/syntax/common.py
index 0564949..99d7902 100644
--- a/httpolice/syntax/common.py
+++ b/httpolice/syntax/common.py
@@ -15,6 +15,15 @@ SP = octet(0x20)                                                        > auto
 VCHAR = octet_range(0x21, 0x7E)                                         > auto
 
 
+_MAX_DIGITS = 1000
+
+def integer(s):
+    # Limit the value, because Python refuses to convert (either way)
+    # between `int` and a string that has several thousand digits.
+    s = s.lstrip(u'0')
+    return int(s or u'0') if len(s) <= _MAX_DIGITS else 10 ** _MAX_DIGITS
+
+
 _BAD_MEDIA_TYPES = {
     MediaType(u'application/text'): media.text_plain,
     MediaType(u'plain/text'): media.text_plain,
diff --git a/httpolice/syntax/internal.py b/httpolice/syntax/internal.py
index 3c85ad9..1642293 100644
--- a/httpolice/syntax/internal.py
+++ b/httpolice/syntax/internal.py
@@ -1,10 +1,10 @@
 from httpolice.parse import (fill_names, literal, maybe, pivot, skip, string1,
                              subst)
-from httpolice.syntax.common import DIGIT
+from httpolice.syntax.common import DIGIT, integer
 from httpolice.syntax.rfc7230 import RWS, comma_list
 
 
-notice_id = int << string1(DIGIT)                                       > pivot
+notice_id = integer << string1(DIGIT)                                   > pivot
 resp = subst(True) << literal('resp')                                   > pivot
 HTTPolice_Silence = comma_list(notice_id * maybe(skip(RWS) * resp))     > pivot
 
diff --git a/httpolice/syntax/rfc6797.py b/httpolice/syntax/rfc6797.py
index 027d850..694c627 100644
--- a/httpolice/syntax/rfc6797.py
+++ b/httpolice/syntax/rfc6797.py
@@ -1,7 +1,7 @@
 from httpolice.citation import RFC
 from httpolice.parse import auto, fill_names, many, maybe, pivot, skip, string1
 from httpolice.structure import HSTSDirective, Parametrized
-from httpolice.syntax.common import DIGIT
+from httpolice.syntax.common import DIGIT, integer
 from httpolice.syntax.rfc7230 import OWS, quoted_string, token
 
 
@@ -19,6 +19,6 @@ def _collect_elements(xs):
 Strict_Transport_Security = _collect_elements << (
     maybe(directive) % many(skip(OWS * ';' * OWS) * maybe(directive)))  > pivot
 
-max_age_value = int << string1(DIGIT)                                   > pivot
+max_age_value = integer << string1(DIGIT)                               > pivot
 
 fill_names(globals(), RFC(6797))
diff --git a/httpolice/syntax/rfc7230.py b/httpolice/syntax/rfc7230.py
index d3f57a4..939fde8 100644
--- a/httpolice/syntax/rfc7230.py
+++ b/httpolice/syntax/rfc7230.py
@@ -6,7 +6,8 @@ from httpolice.parse import (auto, can_complain, fill_names, group, literal,
 from httpolice.structure import (CaseInsensitive, ConnectionOption, FieldName,
                                  Method, MultiDict, Parametrized,
                                  TransferCoding, UpgradeToken, Versioned)
-from httpolice.syntax.common import ALPHA, DIGIT, DQUOTE, HTAB, SP, VCHAR
+from httpolice.syntax.common import (ALPHA, DIGIT, DQUOTE, HTAB, SP, VCHAR,
+                                     integer)
 from httpolice.syntax.rfc3986 import (absolute_URI, authority,
                                       host as uri_host, port, query,
                                       relative_part, segment)
@@ -161,6 +162,6 @@ Via = comma_list1(received_protocol * skip(RWS) *
                   received_by *
                   maybe(skip(RWS) * comment(include_parens=False)))     > pivot
 
-Content_Length = int << string1(DIGIT)                                  > pivot
+Content_Length = integer << string1(DIGIT)                              > pivot
 
 fill_names(globals(), RFC(7230))
diff --git a/httpolice/syntax/rfc7231.py b/httpolice/syntax/rfc7231.py
index 38f77cc..cc813a3 100644
--- a/httpolice/syntax/rfc7231.py
+++ b/httpolice/syntax/rfc7231.py
@@ -7,7 +7,7 @@ from httpolice.parse import (auto, can_complain, fill_names, literal, many,
 from httpolice.structure import (CaseInsensitive, Charset, ContentCoding,
                                  MediaType, MultiDict, Parametrized,
                                  ProductName, Unavailable, Versioned, okay)
-from httpolice.syntax.common import DIGIT, SP, check_media_type
+from httpolice.syntax.common import DIGIT, SP, check_media_type, integer
 from httpolice.syntax.rfc3986 import URI_reference, absolute_URI
 from httpolice.syntax.rfc4647 import language_range
 from httpolice.syntax.rfc5646 import Language_Tag as language_tag
@@ -213,7 +213,7 @@ Accept_Encoding = comma_list(Parametrized << codings * maybe(weight))   > pivot
 Accept_Language = comma_list1(
     Parametrized << language_range * maybe(weight))                     > pivot
 
-delay_seconds = int << string1(DIGIT)                                   > pivot
+delay_seconds = integer << string1(DIGIT)                               > pivot
 Retry_After = HTTP_date | delay_seconds                                 > pivot
 
 Allow = comma_list(method)                                              > pivot
@@ -223,7 +223,7 @@ Content_Location = absolute_URI | partial_URI                           > pivot
 Content_Type = media_type                                               > pivot
 Date = HTTP_date                                                        > pivot
 Location = URI_reference                                                > pivot
-Max_Forwards = int << string1(DIGIT)                                    > pivot
+Max_Forwards = integer << string1(DIGIT)                                > pivot
 Referer = absolute_URI | partial_URI                                    > pivot
 Vary = '*' | comma_list1(field_name)                                    > pivot
 Expect = CaseInsensitive << literal('100-continue')                     > pivot
diff --git a/httpolice/syntax/rfc7233.py b/httpolice/syntax/rfc7233.py
index 18d1c83..b5ae7b0 100644
--- a/httpolice/syntax/rfc7233.py
+++ b/httpolice/syntax/rfc7233.py
@@ -3,7 +3,7 @@ from httpolice.parse import (auto, can_complain, fill_names, literal, maybe,
                              pivot, skip, string, string1, subst)
 from httpolice.structure import (CaseInsensitive, ContentRange, RangeSpecifier,
                                  RangeUnit)
-from httpolice.syntax.common import CHAR, DIGIT, SP, VCHAR
+from httpolice.syntax.common import CHAR, DIGIT, SP, VCHAR, integer
 from httpolice.syntax.rfc7230 import comma_list1, token__excluding
 from httpolice.syntax.rfc7231 import HTTP_date
 from httpolice.syntax.rfc7232 import entity_tag
@@ -22,12 +22,12 @@ def _well_formed1(complain, first, last):
         complain(1133)
     return (first, last)
 
-first_byte_pos = int << string1(DIGIT)                                  > auto
-last_byte_pos = int << string1(DIGIT)                                   > auto
+first_byte_pos = integer << string1(DIGIT)                              > auto
+last_byte_pos = integer << string1(DIGIT)                               > auto
 byte_range_spec = _well_formed1 << (first_byte_pos * skip('-') *
                                     maybe(last_byte_pos))               > pivot
 
-suffix_length = int << string1(DIGIT)                                   > auto
+suffix_length = integer << string1(DIGIT)                               > auto
 suffix_byte_range_spec = \
     (lambda x: (None, x)) << skip('-') * suffix_length                  > pivot
 
@@ -42,7 +42,7 @@ other_ranges_specifier = RangeSpecifier << (
 Range = byte_ranges_specifier | other_ranges_specifier                  > pivot
 
 byte_range = first_byte_pos * skip('-') * last_byte_pos                 > auto
-complete_length = int << string1(DIGIT)                                 > auto
+complete_length = integer << string1(DIGIT)                             > auto
 byte_range_resp = (
     byte_range * skip('/') *
     (complete_length | subst(None) << literal('*')))                    > pivot
diff --git a/httpolice/syntax/rfc7234.py b/httpolice/syntax/rfc7234.py
index 6e2a0a9..5023ab2 100644
--- a/httpolice/syntax/rfc7234.py
+++ b/httpolice/syntax/rfc7234.py
@@ -3,14 +3,14 @@ from httpolice.parse import (fill_names, literal, mark, maybe, maybe_str,
                              named, pivot, skip, string1, string_times)
 from httpolice.structure import (CacheDirective, CaseInsensitive, Parametrized,
                                  WarnCode, WarningValue)
-from httpolice.syntax.common import DIGIT, DQUOTE, SP
+from httpolice.syntax.common import DIGIT, DQUOTE, SP, integer
 from httpolice.syntax.rfc7230 import (comma_list, comma_list1, field_name,
                                       port, pseudonym, quoted_string, token,
                                       token__excluding, uri_host)
 from httpolice.syntax.rfc7231 import HTTP_date
 
 
-delta_seconds = int << string1(DIGIT)                                   > pivot
+delta_seconds = integer << string1(DIGIT)                               > pivot
 Age = delta_seconds                                                     > pivot
 
 cache_directive = Parametrized << (
-- 
2.43.0


From 184961eec515c0223a7087aac02e39534c5c7253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:35 +0000
Subject: [PATCH 06/37] fix: do not crash on IP literals that urllib does not
 support

---
 httpolice/request.py  |  8 ++++----
 httpolice/response.py | 20 ++++++++++++++------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/httpolice/request.py b/httpolice/request.py
index 5a3e717..03199d6 100644
--- a/httpolice/request.py
+++ b/httpolice/request.py
@@ -2,7 +2,7 @@ import base64
 import fnmatch
 import itertools
 import string
-from urllib.parse import parse_qs, urlparse
+from urllib.parse import parse_qs
 
 from httpolice import known, message
 from httpolice.blackboard import derived_property
@@ -182,7 +182,8 @@ class Request(message.Message):
         # so this property should be understood as "salvageable query params."
         if not okay(self.effective_uri):
             return {}
-        return parse_qs(urlparse(self.effective_uri).query)
+        without_fragment = self.effective_uri.partition(u'#')[0]
+        return parse_qs(without_fragment.partition(u'?')[2])
 
     @derived_property
     def has_body(self):
@@ -272,8 +273,7 @@ def check_request(req):
 
     if headers.referer.is_okay:
         if req.is_tls is False:
-            parsed = urlparse(headers.referer.value)
-            if parsed.scheme == u'https':
+            if headers.referer.value.lower().startswith(u'https:'):
                 complain(1068)
 
     if headers.user_agent.is_absent:
diff --git a/httpolice/response.py b/httpolice/response.py
index c450e2b..4988ad6 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -1,5 +1,5 @@
 from datetime import datetime, timedelta
-from urllib.parse import urljoin, urlparse
+from urllib.parse import urljoin
 
 from httpolice import known, message
 from httpolice.blackboard import derived_property
@@ -293,7 +293,7 @@ def check_response_itself(resp):
         complain(1110)
 
     if status == st.created and headers.location.is_okay and \
-            urlparse(headers.location.value).fragment:
+            headers.location.value.partition(u'#')[2]:
         complain(1111)
 
     if headers.date < headers.last_modified.value:
@@ -492,6 +492,15 @@ def check_response_itself(resp):
         complain(1046)
 
 
+def _resolves_to_itself(uri, reference):
+    try:
+        return uri == urljoin(uri, reference)
+    except ValueError:
+        # Not every valid URI is supported by `urljoin`
+        # (there are problems with some IP literals).
+        return uri == reference
+
+
 def check_response_in_context(resp, req):
     resp.silence(notice_id
                  for (notice_id, in_resp) in req.headers.httpolice_silence
@@ -544,8 +553,8 @@ def check_response_in_context(resp, req):
         complain(1071)
 
     if resp.headers.content_location.is_okay and req.effective_uri:
-        if req.effective_uri == urljoin(req.effective_uri,
-                                        resp.headers.content_location.value):
+        if _resolves_to_itself(req.effective_uri,
+                               resp.headers.content_location.value):
             if method in [m.GET, m.HEAD] and \
                     status in [st.ok, st.non_authoritative_information,
                                st.no_content, st.partial_content,
@@ -555,8 +564,7 @@ def check_response_in_context(resp, req):
                 complain(1060)
 
     if resp.headers.location.is_okay and req.effective_uri and req.scheme:
-        if req.effective_uri == urljoin(req.effective_uri,
-                                        resp.headers.location.value):
+        if _resolves_to_itself(req.effective_uri, resp.headers.location.value):
             if status in [st.multiple_choices, st.temporary_redirect,
                           st.permanent_redirect]:
                 complain(1085)
-- 
2.43.0


From 1e146fe6e9088d20a69e13ccfdfd59584cfad328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:35 +0000
Subject: [PATCH 07/37] fix: do not crash on charsets that name a non-text
 Python codec

---
 httpolice/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index c810134..6108ce0 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -107,7 +107,8 @@ class Message(Blackboard):
         if okay(self.decoded_body):
             try:
                 self.decoded_body.decode(charset)   # pylint: disable=no-member
-            except UnicodeError:
+            except (LookupError, UnicodeError):
+                # `LookupError` is for codecs that are not for text.
                 return None
         return charset
 
-- 
2.43.0


From 4099ad63578d4c60a54e65f8e05df3e17dd0a3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 08/37] fix: do not crash on XML in an encoding that the parser
 does not support

---
 httpolice/message.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/httpolice/message.py b/httpolice/message.py
index 6108ce0..1bf4540 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -158,6 +158,9 @@ class Message(Blackboard):
             except (xml.etree.ElementTree.ParseError, UnicodeError) as e:
                 self.complain(1039, error=e)
                 return Unavailable(self.decoded_body)
+            except (LookupError, ValueError):
+                # This encoding is not supported by the XML parser.
+                return Unavailable(self.decoded_body)
         else:
             return None
 
-- 
2.43.0


From 6857148a12dd5ff1284bd8bf36a9715f15f2d649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 09/37] fix: do not crash on JSON or multipart bodies that are
 nested too deep

---
 httpolice/message.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index 1bf4540..6a8ccaf 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -133,6 +133,9 @@ class Message(Blackboard):
                 okay(self.unicode_body) and self.content_is_full:
             try:
                 r = json.loads(self.unicode_body)
+            except RecursionError:
+                # May well be correct, just nested too deep for us.
+                r = Unavailable(self.unicode_body)
             except ValueError as e:
                 self.complain(1038, error=e)
                 r = Unavailable(self.unicode_body)
@@ -175,7 +178,11 @@ class Message(Blackboard):
             # and should be parseable as email message payloads.
             multipart_code = (b'Content-Type: ' + ctype.entries[0].value +
                               b'\r\n\r\n' + self.decoded_body)
-            parsed = parse_email_message(multipart_code)
+            try:
+                parsed = parse_email_message(multipart_code)
+            except RecursionError:
+                # May well be correct, just nested too deep for us.
+                return Unavailable(self.decoded_body)
             for d in parsed.defects:
                 if isinstance(d, email.errors.NoBoundaryInMultipartDefect):
                     self.complain(1139)
@@ -214,8 +221,16 @@ class Message(Blackboard):
             if self.guessed_charset and self.guessed_charset != 'utf-8' else []
         pretty_printing = [u'pretty-printing']
 
+        pretty_printed = None
         if okay(self.json_data):
-            r = json.dumps(self.json_data, indent=2, ensure_ascii=False)
+            try:
+                pretty_printed = json.dumps(self.json_data, indent=2,
+                                            ensure_ascii=False)
+            except RecursionError:      # Nested too deep.
+                pass
+
+        if pretty_printed is not None:
+            r = pretty_printed
             transforms = \
                 removing_te + removing_ce + decoding_charset + pretty_printing
         elif okay(self.unicode_body):
-- 
2.43.0


From 26faf64f075b558ca4176230246d9b3bf7b1ee7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 10/37] fix: report NaN and Infinity as malformed JSON

---
 httpolice/message.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index 6a8ccaf..5467aca 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -35,6 +35,11 @@ URL_ENCODED_GOOD_CHARS = Bits(
 )
 
 
+def _forbid_json_constant(name):
+    # By default, Python allows ``NaN`` and ``Infinity``, which are not JSON.
+    raise ValueError(u'%s is not allowed in JSON' % name)
+
+
 class Message(Blackboard):
 
     """An HTTP message (request or response)."""
@@ -132,7 +137,8 @@ class Message(Blackboard):
                 known.media_type.is_json(self.headers.content_type.item) and \
                 okay(self.unicode_body) and self.content_is_full:
             try:
-                r = json.loads(self.unicode_body)
+                r = json.loads(self.unicode_body,
+                               parse_constant=_forbid_json_constant)
             except RecursionError:
                 # May well be correct, just nested too deep for us.
                 r = Unavailable(self.unicode_body)
-- 
2.43.0


From 15350c64b5e6680fdf2627991121ac16ba750c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 11/37] fix: do not report very large JSON numbers as malformed
 JSON

---
 httpolice/message.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/httpolice/message.py b/httpolice/message.py
index 5467aca..2583451 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -35,6 +35,13 @@ URL_ENCODED_GOOD_CHARS = Bits(
 )
 
 
+def _parse_json_int(s):
+    try:
+        return int(s)
+    except ValueError:      # Python has a limit on the number of digits.
+        return float(s)
+
+
 def _forbid_json_constant(name):
     # By default, Python allows ``NaN`` and ``Infinity``, which are not JSON.
     raise ValueError(u'%s is not allowed in JSON' % name)
@@ -138,6 +145,7 @@ class Message(Blackboard):
                 okay(self.unicode_body) and self.content_is_full:
             try:
                 r = json.loads(self.unicode_body,
+                               parse_int=_parse_json_int,
                                parse_constant=_forbid_json_constant)
             except RecursionError:
                 # May well be correct, just nested too deep for us.
-- 
2.43.0


From 921bcc377bc9e9388b47e256ddf536fb07bdf1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:02 +0000
Subject: [PATCH 12/37] fix: accept only hexadecimal digits as chunk size

---
 httpolice/framing1.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/httpolice/framing1.py b/httpolice/framing1.py
index 3e6e04d..706c296 100644
--- a/httpolice/framing1.py
+++ b/httpolice/framing1.py
@@ -25,6 +25,7 @@ chunk_size = Symbol(u'chunk-size', RFC(7230, section=u'4.1'))
 
 
 HTTP_VERSION = re.compile(u'^HTTP/[0-9]\\.[0-9]$')
+CHUNK_SIZE = re.compile(u'^[0-9A-Fa-f]+$')
 STATUS_CODE = re.compile(u'^[0-9]{3}$')
 
 
@@ -299,10 +300,11 @@ def _parse_chunk(stream, data):
         pos = stream.tell()
         (size_s, _, _) = stream.readline().partition(u';')
         with stream.parsing(chunk_size):
-            try:
-                size = int(size_s.rstrip(u' \t'), 16)     # RFC errata ID: 4667
-            except ValueError:
+            size_s = size_s.rstrip(u' \t')                # RFC errata ID: 4667
+            # `int` alone would also accept things like ``-1`` or ``0x1``.
+            if not CHUNK_SIZE.match(size_s):
                 raise stream.error(pos)
+            size = int(size_s, 16)
         if size == 0:
             return False
         if size + current_size > MAX_BODY_SIZE:
-- 
2.43.0


From 552d6ba1ca7808cb7e83362d5fddec1fb7a50a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:02 +0000
Subject: [PATCH 13/37] fix: do not crash on out-of-range timestamps in tcpflow
 filenames

---
 httpolice/inputs/streams.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/httpolice/inputs/streams.py b/httpolice/inputs/streams.py
index 6ee15d6..e099454 100644
--- a/httpolice/inputs/streams.py
+++ b/httpolice/inputs/streams.py
@@ -80,13 +80,18 @@ def tcpflow_input(dir_paths):
                                  u'(did you use the right -T option?)' % name)
             (timestamp, src, dest) = match.groups()
             timestamp = int(timestamp)
+            try:
+                time_hint = datetime.utcfromtimestamp(timestamp)
+            except (OSError, OverflowError, ValueError) as exc:
+                raise InputError(u'wrong timestamp in tcpflow filename %s' %
+                                 name) from exc
             if (src, dest) in seen:
                 raise InputError(u'duplicate source+destination address+port: '
                                  u'%s vs. %s' % (path, seen[(src, dest)]))
             seen[(src, dest)] = path
             streams_info.append(_StreamInfo(
                 path, source=src, destination=dest, connection_hint=None,
-                time_hint=datetime.utcfromtimestamp(timestamp),
+                time_hint=time_hint,
                 sort_hint=timestamp))
         path_pairs.extend(_recombine_streams(streams_info))
 
-- 
2.43.0


From 44b34c7a7b566d6af0fcfe2b2b846887196f6c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:04 +0000
Subject: [PATCH 14/37] fix: report truncated gzip data, and decode all members
 of it

---
 httpolice/codings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httpolice/codings.py b/httpolice/codings.py
index b827432..e932257 100644
--- a/httpolice/codings.py
+++ b/httpolice/codings.py
@@ -1,13 +1,13 @@
 """Decoding content and transfer codings."""
 
+import gzip
 import zlib
 
 import brotli
 
 
 def decode_gzip(data):
-    # Just ``decompress(data, 16 + zlib.MAX_WBITS)`` doesn't work.
-    return zlib.decompressobj(16 + zlib.MAX_WBITS).decompress(data)
+    return gzip.decompress(data)
 
 
 def decode_deflate(data):
-- 
2.43.0


From 4511a0668ecc363cb2fbfb1bb1886451b2310538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 15/37] fix: do not try to decode partial content

---
 httpolice/message.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index 2583451..e5f7ffb 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -91,7 +91,10 @@ class Message(Blackboard):
                        cc.x_gzip: decode_gzip,
                        cc.deflate: decode_deflate,
                        cc.br: decode_brotli}.get(coding)
-            if decoder is not None:
+            if decoder is not None and not self.content_is_full:
+                # A part of an encoded body can't be decoded on its own.
+                r = Unavailable(r)
+            elif decoder is not None:
                 try:
                     r = decoder(r)
                 except Exception as e:
-- 
2.43.0


From 01da0ab31bfa6c4fbb700ad5c46ccfdd000cbebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 16/37] fix: report garbage after deflate-encoded data

---
 httpolice/codings.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/httpolice/codings.py b/httpolice/codings.py
index e932257..38e0397 100644
--- a/httpolice/codings.py
+++ b/httpolice/codings.py
@@ -11,7 +11,13 @@ def decode_gzip(data):
 
 
 def decode_deflate(data):
-    return zlib.decompress(data)
+    decoder = zlib.decompressobj()
+    r = decoder.decompress(data)
+    if not decoder.eof:
+        raise zlib.error(u'incomplete or truncated stream')
+    if decoder.unused_data:
+        raise zlib.error(u'garbage after the end of compressed data')
+    return r
 
 
 def decode_brotli(data):
-- 
2.43.0


From cafb7c2421e17e61754b08ac2ac08d136d08ff40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 17/37] fix: do not crash on HAR files with values of
 unexpected types

---
 httpolice/inputs/har.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/httpolice/inputs/har.py b/httpolice/inputs/har.py
index 6b18632..4fc9fdd 100644
--- a/httpolice/inputs/har.py
+++ b/httpolice/inputs/har.py
@@ -26,13 +26,14 @@ def har_input(paths):
         with io.open(path, 'rt', encoding='utf-8-sig') as f:
             try:
                 data = json.load(f)
-            except ValueError as exc:
+            except (ValueError, RecursionError) as exc:
                 raise InputError('%s: bad HAR file: %s' % (path, exc)) from exc
             try:
                 creator = data['log']['creator']['name']
                 for entry in data['log']['entries']:
                     yield _process_entry(entry, creator, path)
-            except (TypeError, KeyError) as exc:
+            except (TypeError, KeyError, AttributeError, ValueError,
+                    OverflowError) as exc:
                 raise InputError('%s: cannot understand HAR file: %r' %
                                  (path, exc)) from exc
 
@@ -45,8 +46,8 @@ def _process_entry(data, creator, path):
 
 def _process_request(data, creator, path):
     version, header_entries = _process_message(data, creator)
-    method = data['method']
-    parsed = urlparse(data['url'])
+    method = _check_string(data['method'])
+    parsed = urlparse(_check_string(data['url']))
     scheme = parsed.scheme
 
     if method == m.CONNECT:
@@ -80,7 +81,7 @@ def _process_request(data, creator, path):
     text = None
     post = data.get('postData')
     if post and post.get('text'):
-        text = post['text']
+        text = _check_string(post['text'])
         if creator in FIDDLER and method == m.CONNECT and u'Fiddler' in text:
             # Fiddler's HAR export adds a body with debug information
             # to CONNECT requests.
@@ -130,7 +131,8 @@ def _process_response(data, req, creator, path):
     if data['content'].get('text') and status != st.not_modified:
         if data['content'].get('encoding', u'').lower() == u'base64':
             try:
-                decoded_body = base64.b64decode(data['content']['text'])
+                decoded_body = base64.b64decode(
+                    _check_string(data['content']['text']))
             except ValueError:
                 pass
             else:
@@ -143,13 +145,20 @@ def _process_response(data, req, creator, path):
                     resp.decoded_body = decoded_body
 
         elif 'encoding' not in data['content']:
-            resp.unicode_body = data['content']['text']
+            resp.unicode_body = _check_string(data['content']['text'])
 
     return resp
 
 
+def _check_string(x):
+    if not isinstance(x, str):
+        raise TypeError('expected a string, not %r' % (x,))
+    return x
+
+
 def _process_message(data, creator):
-    header_entries = [(FieldName(d['name']), d['value'])
+    header_entries = [(FieldName(_check_string(d['name'])),
+                       _check_string(d['value']))
                       for d in data['headers']]
     pop_pseudo_headers(header_entries)
 
-- 
2.43.0


From c3acb6892640cb0dd4b45a5d0051623fc9a5c3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:57 +0000
Subject: [PATCH 18/37] fix: do not take quadratic time on bodies with very
 many chunks

---
 httpolice/framing1.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/httpolice/framing1.py b/httpolice/framing1.py
index 706c296..127372a 100644
--- a/httpolice/framing1.py
+++ b/httpolice/framing1.py
@@ -294,8 +294,7 @@ class BodyTooLongError(Exception):
         self.max_size = max_size
 
 
-def _parse_chunk(stream, data):
-    current_size = sum(len(c) for c in data)
+def _parse_chunk(stream, data, current_size):
     with stream.parsing(chunk):
         pos = stream.tell()
         (size_s, _, _) = stream.readline().partition(u';')
@@ -306,21 +305,25 @@ def _parse_chunk(stream, data):
                 raise stream.error(pos)
             size = int(size_s, 16)
         if size == 0:
-            return False
+            return 0
         if size + current_size > MAX_BODY_SIZE:
             stream.sane = False
             raise BodyTooLongError(size + current_size, MAX_BODY_SIZE)
         data.append(stream.read(size))
         stream.readlineend()
-        return True
+        return size
 
 
 def _parse_chunked(msg, stream):
     data = []
+    current_size = 0
     place = u'chunked framing'
     try:
-        while _parse_chunk(stream, data):
-            pass
+        while True:
+            size = _parse_chunk(stream, data, current_size)
+            if size == 0:
+                break
+            current_size += size
         trailer = parse_header_fields(stream)
         with stream.parsing(chunked_body):
             stream.readlineend()
-- 
2.43.0


From 836f80607fdcf2c7c95a65551bb5f9139d13c885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:25 +0000
Subject: [PATCH 19/37] fix: correct the spelling of Saturday in notice 1108

---
 httpolice/syntax/rfc7231.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httpolice/syntax/rfc7231.py b/httpolice/syntax/rfc7231.py
index cc813a3..46a8810 100644
--- a/httpolice/syntax/rfc7231.py
+++ b/httpolice/syntax/rfc7231.py
@@ -19,7 +19,7 @@ from httpolice.syntax.rfc7230 import (OWS, RWS, comma_list, comma_list1,
 # The standard library's day and month names are locale-dependent,
 # which brings in Unicode problems.
 _DAY_NAMES = [u'Monday', u'Tuesday', u'Wednesday', u'Thursday', u'Friday',
-              u'Saturady', u'Sunday']
+              u'Saturday', u'Sunday']
 _MONTH_NAMES = [u'Jan', u'Feb', u'Mar', u'Apr', u'May', u'Jun', u'Jul', u'Aug',
                 u'Sep', u'Oct', u'Nov', u'Dec']
 
-- 
2.43.0


From 627a8e187d791b962822cdf3d2770973a0bdd71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:34 +0000
Subject: [PATCH 20/37] fix: interpret two-digit years in dates as RFC 7231
 says

---
 httpolice/syntax/rfc7231.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/httpolice/syntax/rfc7231.py b/httpolice/syntax/rfc7231.py
index 46a8810..59eb6e1 100644
--- a/httpolice/syntax/rfc7231.py
+++ b/httpolice/syntax/rfc7231.py
@@ -128,10 +128,18 @@ day_name_l = (
                  octet(0x61) * octet(0x79))
 )                                                                       > pivot
 
+def _to_full_year(s):
+    # RFC 7231 Section 7.1.1.1: a date that appears to be more than 50 years
+    # in the future represents the most recent year in the past
+    # that had the same last two digits.
+    this_year = datetime.utcnow().year
+    y = this_year - this_year % 100 + int(s)
+    return y - 100 if y > this_year + 50 else y
+
 date2 = _to_date << (
     day * skip('-') *
     month * skip('-') *
-    ((lambda s: int('19' + s)) << string_times(2, 2, DIGIT)))           > pivot
+    (_to_full_year << string_times(2, 2, DIGIT)))                       > pivot
 
 rfc850_date = _to_datetime << (day_name_l * skip(',' * SP) *
                                date2 * skip(SP) *
-- 
2.43.0


From 3386e275d9e9c664777fd3997a4a5fb300a54a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 21/37] fix: ignore letter case when comparing items of Accept
 headers (notice 1276)

---
 httpolice/request.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httpolice/request.py b/httpolice/request.py
index 03199d6..e93e40c 100644
--- a/httpolice/request.py
+++ b/httpolice/request.py
@@ -445,8 +445,8 @@ def _accept_subsumptions(items):
 
     for ((item1, q1), (item2, q2)) in itertools.permutations(normalized, 2):
         if (item1 == u'*' or item1.endswith(u'/*')) and \
-                fnmatch.fnmatch(item2, item1) and \
-                not fnmatch.fnmatch(item1, item2) and \
+                fnmatch.fnmatch(item2.lower(), item1.lower()) and \
+                not fnmatch.fnmatch(item1.lower(), item2.lower()) and \
                 q1 == q2:
             yield (item1, item2)
 
-- 
2.43.0


From e88dd8f1aa2ca63b00124b4ebb98d802eac44c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 22/37] fix: do not let input data break lines in text reports

---
 httpolice/reports/text.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/httpolice/reports/text.py b/httpolice/reports/text.py
index 2ce6234..cba50a2 100644
--- a/httpolice/reports/text.py
+++ b/httpolice/reports/text.py
@@ -1,5 +1,6 @@
 import codecs
 from functools import singledispatch
+import re
 
 from httpolice import notice
 from httpolice.reports.common import (expand_piece, find_reason_phrase,
@@ -37,8 +38,8 @@ def text_report(exchanges, buf):
 def _exchange_marker(exchange):
     if exchange.request:
         marker = u'------------ request: %s %s' % (
-            printable(exchange.request.method),
-            printable(exchange.request.target))
+            _one_line(exchange.request.method),
+            _one_line(exchange.request.target))
     elif exchange.responses:
         marker = u'------------ unknown request'
     else:
@@ -50,7 +51,7 @@ def _exchange_marker(exchange):
 def _response_marker(response):
     return ellipsize(u'------------ response: %d %s' % (
                         response.status,
-                        printable(find_reason_phrase(response)))) + u'\n'
+                        _one_line(find_reason_phrase(response)))) + u'\n'
 
 
 def _write_complaint_line(complaint, f):
@@ -60,13 +61,19 @@ def _write_complaint_line(complaint, f):
             (complaint.notice.severity_short, complaint.notice.id, title))
 
 
+def _one_line(s):
+    # A piece of input data must not be able to break the line it is on,
+    # or else it could imitate other lines of the report.
+    return re.sub(u'[\t\n\r]', u' ', printable(s))
+
+
 @singledispatch
 def _piece_to_text(piece, ctx):
     return _piece_to_text(expand_piece(piece), ctx)
 
 @_piece_to_text.register(str)
 def _text_to_text(text, _):
-    return printable(text)
+    return _one_line(text)
 
 @_piece_to_text.register(list)
 def _list_to_text(xs, ctx):
-- 
2.43.0


From f774531308f8b61addd168542678af4015c3ea53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 23/37] fix: do not lose notice IDs when an exchange is
 silenced with an iterator

---
 httpolice/blackboard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/httpolice/blackboard.py b/httpolice/blackboard.py
index 7c2ffa3..816fb06 100644
--- a/httpolice/blackboard.py
+++ b/httpolice/blackboard.py
@@ -64,6 +64,7 @@ class Blackboard:
           An iterable of notice IDs that will be silenced on this object,
           so they don't appear in :attr:`notices` or in reports.
         """
+        notice_ids = list(notice_ids)   # It may be an iterator.
         self._silenced.update(notice_ids)
         for child in self.children:
             child.silence(notice_ids)
-- 
2.43.0


From 84ed135afad001e7606ade1f5b69fcace7026b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 24/37] fix: show status and warn codes as plain numbers in
 reports

Since Python 3.8, str() of an int subclass falls back to its __repr__,
so reports said "StatusCode(401) response needs...".
---
 httpolice/structure.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/httpolice/structure.py b/httpolice/structure.py
index c05700f..846e13f 100644
--- a/httpolice/structure.py
+++ b/httpolice/structure.py
@@ -198,6 +198,9 @@ class StatusCode(int):
     def __repr__(self):
         return 'StatusCode(%d)' % self
 
+    def __str__(self):
+        return '%d' % self
+
     informational = property(lambda self: 100 <= self <= 199)
     successful = property(lambda self: 200 <= self <= 299)
     redirection = property(lambda self: 300 <= self <= 399)
@@ -367,6 +370,9 @@ class WarnCode(int):
     def __repr__(self):
         return 'WarnCode(%d)' % self
 
+    def __str__(self):
+        return '%d' % self
+
 
 class AuthScheme(CaseInsensitive):
 
-- 
2.43.0


From 067b04d8799aff94923c8195df927c34b8158b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 25/37] fix: keep all three digits of warn codes in reports

---
 httpolice/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httpolice/structure.py b/httpolice/structure.py
index 846e13f..7283fd5 100644
--- a/httpolice/structure.py
+++ b/httpolice/structure.py
@@ -371,7 +371,7 @@ class WarnCode(int):
         return 'WarnCode(%d)' % self
 
     def __str__(self):
-        return '%d' % self
+        return '%03d' % self
 
 
 class AuthScheme(CaseInsensitive):
-- 
2.43.0


From 48e92e1d20a00a08b1a628b6eb0b923f43e64e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:57 +0000
Subject: [PATCH 26/37] fix: don't repeat notices with syntax errors when an
 exchange is checked again

---
 httpolice/blackboard.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/httpolice/blackboard.py b/httpolice/blackboard.py
index 816fb06..e7692ac 100644
--- a/httpolice/blackboard.py
+++ b/httpolice/blackboard.py
@@ -42,6 +42,7 @@ class Blackboard:
 
     def __init__(self):
         self._complaints = []
+        self._complaint_keys = []
         self._silenced = set()
         self.memoized = {}
 
@@ -53,9 +54,15 @@ class Blackboard:
         """Report a notice on this blackboard."""
         notice = all_notices[notice_id]
         context = dict({self.self_name: self}, **kwargs)
-        complaint = Complaint(notice, context)
-        if complaint not in self._complaints:
-            self._complaints.append(complaint)
+        # Exceptions don't compare equal, but when a check is repeated,
+        # it can represent the same error with a new exception.
+        key = (notice_id,
+               dict((k, (type(v), v.args, vars(v))
+                     if isinstance(v, Exception) else v)
+                    for (k, v) in context.items()))
+        if key not in self._complaint_keys:
+            self._complaint_keys.append(key)
+            self._complaints.append(Complaint(notice, context))
 
     def silence(self, notice_ids):
         """Silence unwanted notices on this object.
-- 
2.43.0


From 41e62c921e859e5b179c47b06de0243641254304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:57 +0000
Subject: [PATCH 27/37] fix: list expected symbols and unknown Basic parameters
 in a stable order

---
 httpolice/parse.py    | 9 ++++++---
 httpolice/response.py | 5 +++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/httpolice/parse.py b/httpolice/parse.py
index 5f9be0d..662f10c 100644
--- a/httpolice/parse.py
+++ b/httpolice/parse.py
@@ -607,7 +607,9 @@ def string_excluding(terminal, excluding):
     This only works when the excluded strings are relatively few and short.
 
     """
-    initials = set(s[0:1].lower() for s in excluding if s)
+    # Not a set, to keep the order of symbols the same on every run.
+    initials = list(OrderedDict.fromkeys(s[0:1].lower()
+                                         for s in excluding if s))
 
     free = terminal
     for c in initials:
@@ -1013,8 +1015,9 @@ def _build_parse_error(data, target_symbol, chart):
         if isinstance(next_symbol, Terminal):
             chars = format_chars(next_symbol.chars())
             # And why did we expect it? As part of what nonterminals?
-            expected.setdefault(chars, set()).update(
-                _find_pivots(chart, symbol, start))
+            # (They are shown to the user, so keep them in a stable order.)
+            expected.setdefault(chars, OrderedDict()).update(
+                OrderedDict.fromkeys(_find_pivots(chart, symbol, start)))
 
         if symbol is target_symbol and next_symbol is None:
             # This item indicates a complete parse of `target_symbol`,
diff --git a/httpolice/response.py b/httpolice/response.py
index 4988ad6..0838264 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -814,8 +814,9 @@ def _check_basic_challenge(resp, hdr, challenge):
     for charset in challenge.param.getall(u'charset'):
         if charset.lower() != u'utf-8':
             resp.complain(1208, header=hdr, charset=charset)
-    for name in set(challenge.param) - {u'charset', u'realm'}:
-        resp.complain(1207, header=hdr, param=name)
+    for name in challenge.param:
+        if name not in [u'charset', u'realm']:
+            resp.complain(1207, header=hdr, param=name)
 
 
 def _check_bearer_challenge(resp, hdr, challenge):
-- 
2.43.0


From b896e880be4e18aab3dc90f25c3fe13e00ca30c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:37 +0000
Subject: [PATCH 28/37] fix: recombine tcpick streams when client and server
 are on the same host

---
 httpolice/inputs/streams.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/httpolice/inputs/streams.py b/httpolice/inputs/streams.py
index e099454..93337ec 100644
--- a/httpolice/inputs/streams.py
+++ b/httpolice/inputs/streams.py
@@ -47,6 +47,9 @@ def tcpick_input(dir_paths):
                                  u'(did you use the -F2 option?)' % name)
             (counter, src, dest, direction) = match.groups()
             counter = int(counter)
+            # The client and the server may be on the same host,
+            # and there are no ports to tell them apart.
+            (src, dest) = (u'%s (client)' % src, u'%s (server)' % dest)
             if direction == 'serv':
                 (src, dest) = (dest, src)
             streams_info.append(_StreamInfo(path, source=src, destination=dest,
-- 
2.43.0


From a3b7447f962439ac4e59ce27bbf76e1743f18355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 29/37] fix: do not drop parts of the URL from targets of
 requests in HAR files

---
 httpolice/inputs/har.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/httpolice/inputs/har.py b/httpolice/inputs/har.py
index 4fc9fdd..ca7dafb 100644
--- a/httpolice/inputs/har.py
+++ b/httpolice/inputs/har.py
@@ -1,7 +1,7 @@
 import base64
 import io
 import json
-from urllib.parse import urlparse
+from urllib.parse import urlsplit
 
 from httpolice.exchange import Exchange
 from httpolice.helpers import pop_pseudo_headers
@@ -47,7 +47,8 @@ def _process_entry(data, creator, path):
 def _process_request(data, creator, path):
     version, header_entries = _process_message(data, creator)
     method = _check_string(data['method'])
-    parsed = urlparse(_check_string(data['url']))
+    url = _check_string(data['url'])
+    parsed = urlsplit(url)
     scheme = parsed.scheme
 
     if method == m.CONNECT:
@@ -55,8 +56,9 @@ def _process_request(data, creator, path):
     elif any(name == h.host for (name, _) in header_entries):
         # With HAR, we can't tell if the request was to a proxy or to a server.
         # So we force most requests into the "origin form" of the target,
-        target = parsed.path
-        if parsed.query:
+        # as it would be sent according to RFC 7230 Section 5.3.1.
+        target = parsed.path or u'/'
+        if u'?' in url.partition(u'#')[0]:
             target += u'?' + parsed.query
     else:
         # However, if the request has no ``Host`` header,
@@ -64,7 +66,7 @@ def _process_request(data, creator, path):
         # unless we set the full URL ("absolute form") as the target.
         # To prevent this from having an effect on the proxy logic,
         # we explicitly set `Request.is_to_proxy` to `None` later.
-        target = data['url']
+        target = url
 
     if data['bodySize'] == 0:
         # No body, or a body of length 0 (which we do not distinguish).
-- 
2.43.0


From a5e1b13522d48c572e5f2f750f5e768303553ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:07 +0000
Subject: [PATCH 30/37] fix: honour the charset parameter when parsing XML
 bodies

---
 httpolice/message.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index e5f7ffb..8690619 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -34,6 +34,8 @@ URL_ENCODED_GOOD_CHARS = Bits(
     for x in range(256)
 )
 
+BOMS = (codecs.BOM_UTF8, codecs.BOM_UTF16_LE, codecs.BOM_UTF16_BE)
+
 
 def _parse_json_int(s):
     try:
@@ -167,10 +169,16 @@ class Message(Blackboard):
         if self.headers.content_type.is_okay and \
                 known.media_type.is_xml(self.headers.content_type.item) and \
                 okay(self.decoded_body) and self.content_is_full:
+            # The ``charset`` parameter has priority over what is declared
+            # in the XML itself, except for a BOM (RFC 7303 Section 3).
+            data = self.decoded_body
+            if u'charset' in self.headers.content_type.param and \
+                    okay(self.unicode_body) and not data.startswith(BOMS):
+                data = self.unicode_body
             try:
                 # It's not inconceivable that a message might contain
                 # maliciously constructed XML data, so we use `defusedxml`.
-                return defusedxml.ElementTree.fromstring(self.decoded_body)
+                return defusedxml.ElementTree.fromstring(data)
             except defusedxml.EntitiesForbidden:
                 self.complain(1275)
                 return Unavailable(self.decoded_body)
-- 
2.43.0


From 950fd36f3ecbc475dd05dd61312790e3e5acb683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 31/37] fix: do not judge bodies from HAR files as empty when
 their text is given

---
 httpolice/inputs/har.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/httpolice/inputs/har.py b/httpolice/inputs/har.py
index ca7dafb..5795333 100644
--- a/httpolice/inputs/har.py
+++ b/httpolice/inputs/har.py
@@ -94,6 +94,8 @@ def _process_request(data, creator, path):
                   remark=u'from %s' % path)
     if text is not None:
         req.unicode_body = text
+        if req.body == b'':
+            req.body = Unavailable()            # `bodySize` must be wrong.
     req.is_to_proxy = None                      # See above.
     return req
 
@@ -145,9 +147,14 @@ def _process_response(data, req, creator, path):
                     resp.body = b''
                 else:
                     resp.decoded_body = decoded_body
+                    if resp.body == b'' and decoded_body:
+                        resp.body = Unavailable()
 
         elif 'encoding' not in data['content']:
             resp.unicode_body = _check_string(data['content']['text'])
+            # `bodySize` may be 0 just because the response is from cache.
+            if resp.body == b'':
+                resp.body = Unavailable()
 
     return resp
 
-- 
2.43.0


From 2fe78455e74c5048af8b83d4340c45327e7ab7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:06 +0000
Subject: [PATCH 32/37] fix: refer to the right section of RFC 7230 for the
 x-gzip transfer coding

---
 httpolice/known/transfer_coding.csv | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httpolice/known/transfer_coding.csv b/httpolice/known/transfer_coding.csv
index 54c1a13..4918f44 100644
--- a/httpolice/known/transfer_coding.csv
+++ b/httpolice/known/transfer_coding.csv
@@ -5,4 +5,4 @@ deflate,,,,7230,4.2.2,,,
 gzip,,,,7230,4.2.3,,,
 identity,,RFC errata ID: 408,*,,,,,
 x-compress,,,,7230,4.2.1,,,
-x-gzip,,,,7230,4.2.2,,,
+x-gzip,,,,7230,4.2.3,,,
-- 
2.43.0


From 5b43cccf3408fa73a453247d10ce56575002f386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 33/37] fix: find access tokens in URIs even if the scheme is
 unknown

---
 httpolice/request.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httpolice/request.py b/httpolice/request.py
index e93e40c..4630e88 100644
--- a/httpolice/request.py
+++ b/httpolice/request.py
@@ -180,9 +180,9 @@ class Request(message.Message):
     def query_params(self):
         # `parse_qs` returns an empty dictionary on garbage,
         # so this property should be understood as "salvageable query params."
-        if not okay(self.effective_uri):
+        if self.target_form not in [origin_form, absolute_form]:
             return {}
-        without_fragment = self.effective_uri.partition(u'#')[0]
+        without_fragment = self.target.partition(u'#')[0]
         return parse_qs(without_fragment.partition(u'?')[2])
 
     @derived_property
-- 
2.43.0


From 0ee6a9fa4181cad1558a17df65327069def41c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 34/37] fix: do not report 1269 when the token may be in an
 unknown form

---
 httpolice/response.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index 0838264..c20b877 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -887,7 +887,12 @@ def _check_bearer_challenge(resp, hdr, challenge):
             resp.complain(1268, error_code=error_code,
                           expected_status=expected_status)
 
-    if req and req.headers.authorization.is_absent and not request_has_token:
+    # If we don't have the form, then we don't know what was in it.
+    form_unknown = req and not okay(req.decoded_body) and \
+        req.headers.content_type == media.application_x_www_form_urlencoded
+
+    if req and req.headers.authorization.is_absent and \
+            not request_has_token and not form_unknown:
         for param in [u'error', u'error_description', u'error_uri']:
             if param in params:
                 resp.complain(1269, param=param)
-- 
2.43.0


From 26dc4d7f470db1bd8feef37a7c4aaebbbc31a8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:32 +0000
Subject: [PATCH 35/37] fix: do not remember every unknown name forever

---
 httpolice/known/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/httpolice/known/__init__.py b/httpolice/known/__init__.py
index 5aa56d8..962fef9 100644
--- a/httpolice/known/__init__.py
+++ b/httpolice/known/__init__.py
@@ -58,9 +58,9 @@ class Knowledge:
         if processed is None:
             raw = self.raw_by_key.get(key)
             if raw is None:
-                processed = {}
-            else:
-                processed = self.process(raw)
+                # Not cached, because there is no end to unknown keys.
+                return {}
+            processed = self.process(raw)
             self.processed_by_key[key] = processed
         return processed
 
-- 
2.43.0


From ea4137cb4dc710e61f3e455a5e95d1024eccc5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:46 +0000
Subject: [PATCH 36/37] fix: do not crash on chunk sizes that have thousands of
 digits

---
 httpolice/framing1.py      | 3 ++-
 httpolice/syntax/common.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/httpolice/framing1.py b/httpolice/framing1.py
index 127372a..748fab0 100644
--- a/httpolice/framing1.py
+++ b/httpolice/framing1.py
@@ -11,6 +11,7 @@ from httpolice.request import Request
 from httpolice.response import Response
 from httpolice.structure import (FieldName, HeaderEntry, HTTPVersion, Method,
                                  StatusCode, Unavailable, okay)
+from httpolice.syntax.common import integer
 
 
 # Create empty symbols just for referring to them in parse errors.
@@ -303,7 +304,7 @@ def _parse_chunk(stream, data, current_size):
             # `int` alone would also accept things like ``-1`` or ``0x1``.
             if not CHUNK_SIZE.match(size_s):
                 raise stream.error(pos)
-            size = int(size_s, 16)
+            size = integer(size_s, 16)
         if size == 0:
             return 0
         if size + current_size > MAX_BODY_SIZE:
diff --git a/httpolice/syntax/common.py b/httpolice/syntax/common.py
index 99d7902..9928956 100644
--- a/httpolice/syntax/common.py
+++ b/httpolice/syntax/common.py
@@ -17,11 +17,12 @@ VCHAR = octet_range(0x21, 0x7E)                                         > auto
 
 _MAX_DIGITS = 1000
 
-def integer(s):
+def integer(s, base=10):
     # Limit the value, because Python refuses to convert (either way)
     # between `int` and a string that has several thousand digits.
     s = s.lstrip(u'0')
-    return int(s or u'0') if len(s) <= _MAX_DIGITS else 10 ** _MAX_DIGITS
+    return (int(s or u'0', base) if len(s) <= _MAX_DIGITS
+            else base ** _MAX_DIGITS)
 
 
 _BAD_MEDIA_TYPES = {
-- 
2.43.0


From cd5f2fd3269c249f6864e6d5f43cf982cd5e87e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:50 +0000
Subject: [PATCH 37/37] fix: find the multipart boundary as HTTP parses it

The email package does not undo quoted pairs, and is led astray
by a backslash at the end of another parameter, so notices 1139 and 1140
were reported on correct messages.
---
 httpolice/message.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index 8690619..ff38158 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -201,7 +201,15 @@ class Message(Blackboard):
             # All multipart media types obey the same general syntax
             # specified in RFC 2046 Section 5.1,
             # and should be parseable as email message payloads.
-            multipart_code = (b'Content-Type: ' + ctype.entries[0].value +
+            # The email package doesn't follow HTTP's rules for parameters,
+            # so it only gets to see the one that matters.
+            content_type = str(ctype.value.item)
+            if u'boundary' in ctype.value.param:
+                content_type += '; boundary="%s"' % (
+                    ctype.value.param[u'boundary']
+                    .replace(u'\\', u'\\\\').replace(u'"', u'\\"'))
+            multipart_code = (b'Content-Type: ' +
+                              content_type.encode('iso-8859-1') +
                               b'\r\n\r\n' + self.decoded_body)
             try:
                 parsed = parse_email_message(multipart_code)
-- 
2.43.0

