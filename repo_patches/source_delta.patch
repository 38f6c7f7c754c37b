From 34e509182eb0efb79bbf4a46d96f942631ddafdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:35 +0000
Subject: [PATCH 01/64] fix: SRT reader took second fractions that are not
 three digits long for milliseconds

---
 pycaption/srt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/srt.py b/pycaption/srt.py
index 3351bad..bb618c2 100644
--- a/pycaption/srt.py
+++ b/pycaption/srt.py
@@ -63,7 +63,7 @@ class SRTReader(BaseReader):
         microseconds = (int(timesplit[0]) * 3600000000
                         + int(timesplit[1]) * 60000000
                         + int(secsplit[0]) * 1000000
-                        + int(secsplit[1]) * 1000)
+                        + int(secsplit[1].strip().ljust(6, '0')[:6]))
 
         return microseconds
 
-- 
2.43.0


From 17b781fbe4d045d06d0c4bd8772683b8b6b23d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:54 +0000
Subject: [PATCH 02/64] fix: MicroDVD reader lost a microsecond to float
 division of frame numbers

---
 pycaption/microdvd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycaption/microdvd.py b/pycaption/microdvd.py
index 6c31ca1..c944b70 100644
--- a/pycaption/microdvd.py
+++ b/pycaption/microdvd.py
@@ -1,5 +1,6 @@
 import re
 from copy import deepcopy
+from fractions import Fraction
 
 from .base import (
     BaseReader, BaseWriter, CaptionSet, CaptionList, Caption, CaptionNode,
@@ -67,7 +68,8 @@ class MicroDVDReader(BaseReader):
         return caption_set
 
     def _framestomicro(self, framenum, fps=25.0):
-        return int(framenum / fps * (10 ** 6))
+        # exact arithmetic: a float quotient may fall just below the instant
+        return int(framenum * 10 ** 6 / Fraction(repr(fps)))
 
 
 class MicroDVDWriter(BaseWriter):
-- 
2.43.0


From a77768a39edffd68211ffb51f40c39d5f6c93421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:57 +0000
Subject: [PATCH 03/64] fix: WebVTT reader took the block after a cue without
 text for its text

---
 pycaption/webvtt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index c3573b2..8212a49 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -92,11 +92,12 @@ class WebVTTReader(BaseReader):
                     raise type(e)(new_msg).with_traceback(tb) from None
 
             elif "" == line:
-                if found_timing and nodes:
-                    found_timing = False
+                # An empty line ends the cue, even if it has no text
+                if nodes:
                     caption = Caption(start, end, nodes, layout_info=layout_info)
                     captions.append(caption)
                     nodes = []
+                found_timing = False
             else:
                 if found_timing:
                     if nodes:
-- 
2.43.0


From f57aa222097ec8c5ff602f2f4899e847e6cd2b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:10 +0000
Subject: [PATCH 04/64] fix: DFXP reader took second fractions of more than
 three digits for milliseconds

---
 pycaption/dfxp/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index bef0586..5e42f71 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -189,8 +189,9 @@ class DFXPReader(BaseReader):
         microseconds += int(clock_time_match.group('seconds')) * \
                         MICROSECONDS_PER_UNIT["seconds"]
         if clock_time_match.group('sub_frames'):
-            microseconds += int(clock_time_match.group('sub_frames').ljust(
-                3, '0')) * MICROSECONDS_PER_UNIT["milliseconds"]
+            # only the first six digits of the fraction are significant
+            microseconds += int(
+                clock_time_match.group('sub_frames').ljust(6, '0')[:6])
         elif clock_time_match.group('frames'):
             microseconds += int(clock_time_match.group('frames')) / 30 * \
                             MICROSECONDS_PER_UNIT["seconds"]
-- 
2.43.0


From e4f367e2f607a96c5ae21d3646f0d1d869cda729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:13 +0000
Subject: [PATCH 05/64] fix: DFXP reader lost a microsecond to float arithmetic
 on frames and offset times

---
 pycaption/dfxp/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 5e42f71..1e3dac9 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -1,5 +1,6 @@
 import re
 from copy import deepcopy
+from fractions import Fraction
 from xml.sax.saxutils import escape
 
 from bs4 import BeautifulSoup, NavigableString
@@ -193,13 +194,14 @@ class DFXPReader(BaseReader):
             microseconds += int(
                 clock_time_match.group('sub_frames').ljust(6, '0')[:6])
         elif clock_time_match.group('frames'):
-            microseconds += int(clock_time_match.group('frames')) / 30 * \
-                            MICROSECONDS_PER_UNIT["seconds"]
+            microseconds += int(clock_time_match.group('frames')) * \
+                            MICROSECONDS_PER_UNIT["seconds"] // 30
         return int(microseconds)
 
     @staticmethod
     def _convert_time_count_to_microseconds(time_count_match):
-        value = float(time_count_match.group('time_count'))
+        # exact arithmetic: floats may fall just below the instant
+        value = Fraction(time_count_match.group('time_count'))
         metric = time_count_match.group("metric")
         if metric == "h":
             microseconds = value * MICROSECONDS_PER_UNIT["hours"]
-- 
2.43.0


From 281f0820241193c705dcaf5d89acc78f022b88cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:24 +0000
Subject: [PATCH 06/64] fix: DFXP reader kept only the last of several divs of
 one language

---
 pycaption/dfxp/base.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 1e3dac9..695045d 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -103,11 +103,16 @@ class DFXPReader(BaseReader):
         default_language = dfxp_document.tt.attrs.get('xml:lang',
                                                       DEFAULT_LANGUAGE_CODE)
 
-        # Each div represents all the captions for a single language.
+        # Each div represents captions for a single language. Several divs,
+        # possibly nested, may contribute to the same language.
         for div in dfxp_document.find_all('div'):
             lang = div.attrs.get('xml:lang', default_language)
 
-            caption_dict[lang] = self._convert_div_to_caption_list(div)
+            captions = self._convert_div_to_caption_list(div)
+            if lang in caption_dict:
+                caption_dict[lang].extend(captions)
+            else:
+                caption_dict[lang] = captions
 
         for style in dfxp_document.find_all('style'):
             id_ = style.attrs.get('xml:id') or style.attrs.get('id')
@@ -133,7 +138,8 @@ class DFXPReader(BaseReader):
     def _convert_div_to_caption_list(self, div):
         return CaptionList(
             [self._convert_p_tag_to_caption(p_tag)
-             for p_tag in div.find_all('p') if p_tag.get_text().strip()],
+             for p_tag in div.find_all('p')
+             if p_tag.find_parent('div') is div and p_tag.get_text().strip()],
             div.layout_info
         )
 
-- 
2.43.0


From e2212abe08cd27a55ca69a1ce286696e92f38e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:26 +0000
Subject: [PATCH 07/64] fix: SAMI reader left the end of all but one of the
 last sync's captions at zero

---
 pycaption/sami.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index b310bbc..cc5b28d 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -230,9 +230,12 @@ class SAMIReader(BaseReader):
                 caption = Caption(start, end, self.line, styles, caption_layout)
                 captions.append(caption)
 
-        if captions and captions[-1].end == 0:
+        # Captions of the last sync are not followed by another one
+        for caption in reversed(captions):
+            if caption.end != 0:
+                break
             # Arbitrarily make this last 4 seconds. Not ideal...
-            captions[-1].end = (milliseconds + 4000) * 1000
+            caption.end = (milliseconds + 4000) * 1000
 
         return captions
 
-- 
2.43.0


From 61bd4a778d774558e2014912a916bfc7bd0dabf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:12 +0000
Subject: [PATCH 08/64] fix: SAMI writer lost or misplaced syncs (float times,
 blank sync at zero, concurrent captions, secondary languages)

---
 pycaption/sami.py | 49 ++++++++++++++++++++++-------------------------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index cc5b28d..2320f60 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -388,6 +388,7 @@ class SAMIWriter(BaseWriter):
         super().__init__(*args, **kwargs)
         self.open_span = False
         self.last_time = None
+        self.last_timespan = None
 
     def write(self, caption_set):
         caption_set = deepcopy(caption_set)
@@ -400,6 +401,7 @@ class SAMIWriter(BaseWriter):
 
         for lang in caption_set.get_languages():
             self.last_time = None
+            self.last_timespan = None
             if primary is None:
                 primary = lang
 
@@ -440,13 +442,17 @@ class SAMIWriter(BaseWriter):
 
         :rtype: BeautifulSoup
         """
-        time = caption.start // 1000
+        time = int(caption.start // 1000)
+        timespan = caption.start, caption.end
 
-        if self.last_time and time != self.last_time:
+        # Concurrent captions are cleared together, after the last of them
+        if (self.last_time is not None and time != self.last_time
+                and timespan != self.last_timespan):
             sami = self._recreate_blank_tag(
                 sami, caption, lang, primary, captions)
 
-        self.last_time = caption.end // 1000
+        self.last_time = int(caption.end // 1000)
+        self.last_timespan = timespan
 
         sami, sync = self._recreate_sync(sami, lang, primary, time)
 
@@ -478,29 +484,20 @@ class SAMIWriter(BaseWriter):
 
         :rtype: BeautifulSoup
         """
-        if lang == primary:
-            sync = sami.new_tag("sync", start=time)
-            sami.body.append(sync)
-        else:
-            sync = sami.find("sync", start=time)
-            if sync is None:
-                sami, sync = self._find_closest_sync(sami, time)
-
-        return sami, sync
-
-    def _find_closest_sync(self, sami, time):
-        sync = sami.new_tag("sync", start=time)
-
-        earlier = sami.find_all("sync", start=lambda x: int(x) < time)
-        if earlier:
-            last_sync = earlier[-1]
-            last_sync.insert_after(sync)
-        else:
-            later = sami.find_all("sync", start=lambda x: int(x) > time)
-            if later:
-                last_sync = later[0]
-                last_sync.insert_before(sync)
-        return sami, sync
+        # The syncs are kept in time order, each holding the paragraphs of
+        # every language for its time
+        for sync in reversed(sami.body.contents):
+            sync_time = int(sync['start'])
+            if sync_time == time:
+                return sami, sync
+            if sync_time < time:
+                new_sync = sami.new_tag("sync", start=time)
+                sync.insert_after(new_sync)
+                return sami, new_sync
+
+        new_sync = sami.new_tag("sync", start=time)
+        sami.body.insert(0, new_sync)
+        return sami, new_sync
 
     def _recreate_blank_tag(self, sami, caption, lang, primary, captions):
         sami, sync = self._recreate_sync(sami, lang, primary, self.last_time)
-- 
2.43.0


From 235801c6f8339f593b6ed5123284f0eeb0843bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:20 +0000
Subject: [PATCH 09/64] fix: SAMI writer left out the class of a language whose
 code begins another one's, and filed captions under their style's language

---
 pycaption/sami.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 2320f60..99fac83 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -422,7 +422,8 @@ class SAMIWriter(BaseWriter):
                 sami = self._recreate_p_tag(
                     caption, sami, lang, primary, caption_set)
 
-        stylesheet = self._recreate_stylesheet(caption_set)
+        classes = {p['class'] for p in sami.find_all('p')}
+        stylesheet = self._recreate_stylesheet(caption_set, classes)
         sami.find('style').append(stylesheet)
 
         a = sami.prettify(formatter=None).split('\n')
@@ -512,14 +513,19 @@ class SAMIWriter(BaseWriter):
 
     def _recreate_p_lang(self, caption, lang, captions):
         try:
-            if 'lang' in captions.get_style(caption.style['class']):
+            if captions.get_style(caption.style['class'])['lang'] == lang:
                 return caption.style['class']
         except KeyError:
             pass
         return lang
 
-    def _recreate_stylesheet(self, caption_set):
+    def _recreate_stylesheet(self, caption_set, classes=()):
+        """
+        :param classes: the classes of the paragraphs of the document
+        """
         stylesheet = '<!--'
+        declared_langs = [
+            style.get('lang') for _, style in caption_set.get_styles()]
 
         for attr, value in caption_set.get_styles():
             if value != {}:
@@ -527,8 +533,10 @@ class SAMIWriter(BaseWriter):
                     attr, value, caption_set.layout_info)
 
         for lang in caption_set.get_languages():
-            lang_string = f'lang: {lang}'
-            if lang_string not in stylesheet:
+            undeclared_class = (
+                lang in classes
+                and caption_set.get_style(lang).get('lang') != lang)
+            if lang not in declared_langs or undeclared_class:
                 stylesheet += self._recreate_style_block(
                     lang, {'lang': lang}, caption_set.get_layout_info(lang))
 
-- 
2.43.0


From 9032e6dc5fd8722488ad6bbe199082addad3e635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:35 +0000
Subject: [PATCH 10/64] fix: SRT writer ended a cue at a blank line between its
 text lines

---
 pycaption/srt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycaption/srt.py b/pycaption/srt.py
index bb618c2..30a9959 100644
--- a/pycaption/srt.py
+++ b/pycaption/srt.py
@@ -133,8 +133,10 @@ class SRTWriter(BaseWriter):
             for node in caption.nodes:
                 new_content = self._recreate_line(new_content, node)
 
-            # Eliminate excessive line breaks
-            new_content = new_content.strip()
+            # Eliminate excessive line breaks: a blank line would end the cue
+            new_content = '\n'.join(
+                line for line in new_content.split('\n') if line.strip()
+            ).strip()
 
             srt += f"{new_content}\n\n"
             count += 1
-- 
2.43.0


From f61da1ef4e7188dc3f2436e2c8ed23b4cce904a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:38 +0000
Subject: [PATCH 11/64] fix: WebVTT writer left an arrow formed by two adjacent
 text nodes unescaped

---
 pycaption/webvtt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index 8212a49..93f4d7e 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -413,6 +413,8 @@ class WebVTTWriter(BaseWriter):
                 # ATTENTION: This is where the plain unicode node content is
                 # finally encoded as WebVTT.
                 s += self._encode_illegal_characters(node.content) or "&nbsp;"
+                # The arrow may have been formed by two adjacent nodes
+                s = s.replace("-->", "--&gt;")
                 current_layout = node.layout_info
             elif node.type_ == CaptionNode.STYLE:
                 resulting_style = self._calculate_resulting_style(
-- 
2.43.0


From 7f75cfd6a2f3265f1b882466ea7f24f8513772fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:28 +0000
Subject: [PATCH 12/64] fix: SRT, WebVTT and MicroDVD readers broke a cue's
 text at characters that end no line (U+2028, U+0085, form feed)

---
 pycaption/microdvd.py |  3 ++-
 pycaption/srt.py      |  5 +++--
 pycaption/utils.py    | 17 +++++++++++++++++
 pycaption/webvtt.py   |  3 ++-
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/pycaption/microdvd.py b/pycaption/microdvd.py
index c944b70..5f3998f 100644
--- a/pycaption/microdvd.py
+++ b/pycaption/microdvd.py
@@ -10,6 +10,7 @@ from .exceptions import (
     CaptionReadNoCaptions, CaptionReadSyntaxError, CaptionReadTimingError,
     InvalidInputError,
 )
+from .utils import split_lines
 
 
 class MicroDVDReader(BaseReader):
@@ -20,7 +21,7 @@ class MicroDVDReader(BaseReader):
         if not isinstance(content, str):
             raise InvalidInputError('The content is not a unicode string.')
 
-        lines = content.splitlines()
+        lines = split_lines(content)
         captions = CaptionList()
         fps = 25.0
         for line in lines:
diff --git a/pycaption/srt.py b/pycaption/srt.py
index 30a9959..0f49860 100644
--- a/pycaption/srt.py
+++ b/pycaption/srt.py
@@ -4,11 +4,12 @@ from .base import (
     BaseReader, BaseWriter, CaptionSet, CaptionList, Caption, CaptionNode,
 )
 from .exceptions import CaptionReadNoCaptions, InvalidInputError
+from .utils import split_lines
 
 
 class SRTReader(BaseReader):
     def detect(self, content):
-        lines = content.splitlines()
+        lines = split_lines(content)
         if lines[0].isdigit() and '-->' in lines[1]:
             return True
         else:
@@ -18,7 +19,7 @@ class SRTReader(BaseReader):
         if not isinstance(content, str):
             raise InvalidInputError('The content is not a unicode string.')
 
-        lines = content.splitlines()
+        lines = split_lines(content)
         start_line = 0
         captions = CaptionList()
 
diff --git a/pycaption/utils.py b/pycaption/utils.py
index e8ff6fb..c3cda27 100644
--- a/pycaption/utils.py
+++ b/pycaption/utils.py
@@ -1,3 +1,6 @@
+import re
+
+
 def is_leaf(element):
     """
     Return True if the element is a leaf, False otherwise. The element is
@@ -8,3 +11,17 @@ def is_leaf(element):
     if not name or name == 'br':
         return True
     return False
+
+
+def split_lines(content):
+    """
+    Split a document into its lines. As opposed to str.splitlines(), only line
+    feeds and carriage returns end a line: the other line boundaries of Unicode
+    (e.g. U+2028, U+0085 or the form feed) are characters of a line's text.
+    :param content: unicode string
+    :rtype: list
+    """
+    lines = re.split('\r\n|\r|\n', content)
+    if not lines[-1]:
+        lines.pop()
+    return lines
diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index 93f4d7e..22aed33 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -11,6 +11,7 @@ from .exceptions import (
     InvalidInputError,
 )
 from .geometry import HorizontalAlignmentEnum, Layout
+from .utils import split_lines
 
 # A WebVTT timing line has both start/end times and layout related settings
 # (referred to as 'cue settings' in the documentation)
@@ -61,7 +62,7 @@ class WebVTTReader(BaseReader):
         if not isinstance(content, str):
             raise InvalidInputError("The content is not a unicode string.")
 
-        caption_set = CaptionSet({lang: self._parse(content.splitlines())})
+        caption_set = CaptionSet({lang: self._parse(split_lines(content))})
 
         if caption_set.is_empty():
             raise CaptionReadNoCaptions("empty caption file")
-- 
2.43.0


From 99d135351117bb8f19adc8497d753945f99ecf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:52 +0000
Subject: [PATCH 13/64] fix: WebVTT reader decoded character references twice
 or not at all, and took unknown tags for known ones

---
 pycaption/webvtt.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index 22aed33..656edfa 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -1,4 +1,5 @@
 import datetime
+import html
 import re
 import sys
 from copy import deepcopy
@@ -18,9 +19,10 @@ from .utils import split_lines
 # The following pattern captures [start], [end] and [cue settings] if existent
 TIMING_LINE_PATTERN = re.compile(r"^(\S+)\s+-->\s+(\S+)(?:\s+(.*?))?\s*$")
 TIMESTAMP_PATTERN = re.compile(r"^(\d+):(\d{2})(:\d{2})?\.(\d{3})")
-VOICE_SPAN_PATTERN = re.compile("<v(\\.\\w+)* ([^>]*)>")
+VOICE_SPAN_PATTERN = re.compile(r"<v(\.[^\s.<>&]+)*[ \t]([^>]*)>")
 OTHER_SPAN_PATTERN = re.compile(
-    r"</?([cibuv]|ruby|rt|lang|(\d+):(\d{2})(:\d{2})?\.(\d{3})).*?>"
+    r"</?(?:[cibuv]|ruby|rt|lang)(?:[.\s][^>]*)?>"
+    r"|<(\d+):(\d{2})(:\d{2})?\.(\d{3})>"
 )  # These WebVTT tags are stripped off the cues on conversion
 
 WEBVTT_VERSION_OF = {
@@ -182,15 +184,9 @@ class WebVTTReader(BaseReader):
         # TODO: Add support for other WebVTT tags. For now just strip them
         # off the text.
         s = OTHER_SPAN_PATTERN.sub("", s)
-        # Replace WebVTT special XML codes with plain unicode values
-        s = s.replace("&lt;", "<")
-        s = s.replace("&gt;", ">")
-        s = s.replace("&lrm;", "\u200e")
-        s = s.replace("&rlm;", "\u200f")
-        s = s.replace("&nbsp;", "\u00a0")
-        # Must do ampersand last
-        s = s.replace("&amp;", "&")
-        return s
+        # Replace character references with plain unicode values, once: the
+        # result may look like a reference itself
+        return html.unescape(s)
 
 
 class WebVTTWriter(BaseWriter):
-- 
2.43.0


From 8d94ab9912e74d804f8c751f24dd117076b3622b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:59 +0000
Subject: [PATCH 14/64] fix: DFXP reader dropped all but one source line of
 wrapped text, and took comments for text

---
 pycaption/dfxp/base.py | 14 +++++++-----
 pycaption/utils.py     | 50 ++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 58 insertions(+), 6 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 695045d..4fae923 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -4,6 +4,7 @@ from fractions import Fraction
 from xml.sax.saxutils import escape
 
 from bs4 import BeautifulSoup, NavigableString
+from bs4.element import PreformattedString, CData
 
 from ..base import (
     BaseReader, BaseWriter, CaptionSet, CaptionList, Caption, CaptionNode,
@@ -17,7 +18,7 @@ from ..geometry import (
     Point, Stretch, UnitEnum, Padding, VerticalAlignmentEnum,
     HorizontalAlignmentEnum, Alignment, Layout,
 )
-from ..utils import is_leaf
+from ..utils import is_leaf, join_wrapped_lines, mark_line_wraps
 
 __all__ = [
     'DFXP_BASE_MARKUP', 'DFXP_DEFAULT_STYLE', 'DFXP_DEFAULT_STYLE_ID',
@@ -147,6 +148,7 @@ class DFXPReader(BaseReader):
         start, end = self._find_and_convert_times(p_tag)
         self.nodes = []
         self._convert_tag_to_node(p_tag)
+        self.nodes = join_wrapped_lines(self.nodes)
         styles = self._convert_style(p_tag)
 
         if len(self.nodes) > 0:
@@ -227,16 +229,16 @@ class DFXPReader(BaseReader):
     def _convert_tag_to_node(self, tag):
         # convert text
         if isinstance(tag, NavigableString):
-            # strips indentation whitespace only
-            pattern = re.compile("^(?:[\n\r]+\\s*)?(.+)")
-            result = pattern.search(tag)
-            if result:
+            # comments and processing instructions are no text
+            if isinstance(tag, PreformattedString) and not isinstance(tag, CData):
+                return
+            tag_text = mark_line_wraps(tag)
+            if tag_text:
                 # Escaping/unescaping xml entities is the responsibility of the
                 # xml parser used by BeautifulSoup in its initialization. The
                 # content of the tag variable at this point should be a plain
                 # unicode string with xml entities already converted to unicode
                 # characters.
-                tag_text = result.groups()[0]
                 node = CaptionNode.create_text(
                     tag_text, layout_info=tag.layout_info)
                 self.nodes.append(node)
diff --git a/pycaption/utils.py b/pycaption/utils.py
index c3cda27..1c8e1b6 100644
--- a/pycaption/utils.py
+++ b/pycaption/utils.py
@@ -1,5 +1,9 @@
 import re
 
+from .base import CaptionNode
+
+CLOSING_MARKS = '.,:;!?%)]}>\u2026\u201d\u2019\u00bb'
+
 
 def is_leaf(element):
     """
@@ -25,3 +29,49 @@ def split_lines(content):
     if not lines[-1]:
         lines.pop()
     return lines
+
+
+def mark_line_wraps(text):
+    """
+    Replace every line break of the markup's source, and the indentation around
+    it, by a single line feed. See join_wrapped_lines.
+    :param text: unicode string
+    :rtype: str
+    """
+    return re.sub('[ \t]*[\r\n][ \t\r\n]*', '\n', text)
+
+
+def join_wrapped_lines(nodes):
+    """
+    A line break of the markup's source separates words; it breaks no line, and
+    is void at the beginning and at the end of a caption's lines. Text nodes
+    left without text are dropped. No space is added before a mark that belongs
+    to the word before it, as in "<span>word\\n</span>, ...".
+    :param nodes: a list of caption nodes, whose text went through
+        mark_line_wraps
+    :rtype: list
+    """
+    joined = []
+    line = ''
+    pending = False
+
+    for node in nodes:
+        if node.type_ == CaptionNode.BREAK:
+            line = ''
+            pending = False
+        elif node.type_ == CaptionNode.TEXT:
+            text = node.content
+            pending = pending or text.startswith('\n')
+            wrapped_at_end = text.endswith('\n')
+            text = text.strip('\n').replace('\n', ' ')
+            if not text:
+                continue
+            if pending and line and not (
+                    line[-1].isspace() or text[0] in CLOSING_MARKS):
+                text = ' ' + text
+            node.content = text
+            line = text
+            pending = wrapped_at_end
+        joined.append(node)
+
+    return joined
-- 
2.43.0


From 36b5423aaec683baf72bcfab4b75ce792a05db78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:47 +0000
Subject: [PATCH 15/64] fix: DFXP reader decoded the text '&apos;' inside CDATA
 sections

---
 pycaption/dfxp/base.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 4fae923..f63706d 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -540,11 +540,7 @@ class LayoutAwareDFXPParser(BeautifulSoup):
         are usually html parsers, some more forgiving than others, and as such
         they do stuff very differently especially for xml files. We chose this
         one because even though the docs say it's slower, it's very forgiving
-        (it allows unescaped `<` characters, for example). It doesn't support
-        the `&apos;` entity, however, since it respects the HTML4 and not HTML5
-        syntax. Since this is valid XML 1.0, as a workaround we have to
-        manually replace the every occurrence of this entity in the string
-        before using the parser.
+        (it allows unescaped `<` characters, for example).
 
         The reason why we haven't used the 'xml' parser is that it destroys
         characters such as < or & (even the escaped ones).
@@ -566,9 +562,6 @@ class LayoutAwareDFXPParser(BeautifulSoup):
         http://www.crummy.com/software/BeautifulSoup/bs4/doc/#installing-a-parser
         """
 
-        # Work around for lack of '&apos;' support in html.parser
-        markup = markup.replace("&apos;", "'")
-
         super().__init__(
             markup, features, builder, parse_only, from_encoding, **kwargs)
 
-- 
2.43.0


From 066a3228a6080f1aba410be15ee17c4db23a8d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:02 +0000
Subject: [PATCH 16/64] fix: SAMI reader decoded character references twice,
 dropped wrapped source lines and text after a last unclosed reference

---
 pycaption/sami.py | 53 +++++++++++++++++++++--------------------------
 1 file changed, 24 insertions(+), 29 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 99fac83..12a8d14 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -39,7 +39,7 @@ import re
 from xml.dom import SyntaxErr
 from collections import deque
 from copy import deepcopy
-from html.entities import name2codepoint
+from html.entities import html5, name2codepoint
 from html.parser import HTMLParser
 from logging import FATAL
 from xml.sax.saxutils import escape
@@ -56,6 +56,7 @@ from .exceptions import (
     CaptionReadTimingError
 )
 from .geometry import Layout, Alignment, Padding, Size
+from .utils import join_wrapped_lines, mark_line_wraps
 
 # change cssutils default logging
 log.setLevel(FATAL)
@@ -216,6 +217,7 @@ class SAMIReader(BaseReader):
                 self.line = []
 
                 self._translate_tag(p, layout_info)
+                self.line = join_wrapped_lines(self.line)
                 caption_layout = self._get_layout_class()(
                     alignment=self.first_alignment,
                     inherit_from=layout_info
@@ -257,12 +259,9 @@ class SAMIReader(BaseReader):
             # BeautifulSoup apparently handles unescaping character codes
             # (e.g. &amp;) automatically. The following variable, therefore,
             # should contain a plain unicode string.
-            # strips indentation whitespace only
-            pattern = re.compile("^(?:[\n\r]+\\s*)?(.+)")
-            result = pattern.search(tag)
-            if not result:
+            tag_text = mark_line_wraps(tag)
+            if not tag_text:
                 return
-            tag_text = result.groups()[0]
             self.line.append(CaptionNode.create_text(tag_text, inherit_from))
         # convert line breaks
         elif tag.name == 'br':
@@ -651,9 +650,6 @@ class SAMIParser(HTMLParser):
         self.queue = deque()
         self.langs = set()
         self.last_element = ''
-        self.name2codepoint = name2codepoint.copy()
-        self.name2codepoint['apos'] = 0x0027
-        self.convert_charrefs = False
 
     def handle_starttag(self, tag, attrs):
         """
@@ -689,7 +685,7 @@ class SAMIParser(HTMLParser):
             self.queue.append(tag)
             # add tag with attributes
             for attr, value in attrs:
-                tag += f' {attr.lower()}="{value}"'
+                tag += f' {attr.lower()}="{self._escape_value(value)}"'
             self.sami += f"<{tag}>"
 
     # override the parser's handling of endtags
@@ -707,28 +703,25 @@ class SAMIParser(HTMLParser):
             closing_tag = self.queue.pop()
             self.sami += f"</{closing_tag}>"
 
-    def handle_entityref(self, name):
-        if name in ['gt', 'lt']:
-            self.sami += f'&{name};'
-        else:
-            try:
-                self.sami += chr(self.name2codepoint[name])
-            except (KeyError, ValueError):
-                self.sami += f'&{name}'
-
-        self.last_element = ''
-
-    def handle_charref(self, name):
-        if name[0] == 'x':
-            self.sami += chr(int(name[1:], 16))
-        else:
-            self.sami += chr(int(name))
-
     # override the parser's handling of data
     def handle_data(self, data):
-        self.sami += data
+        # character references have been decoded: encode the text anew
+        self.sami += escape(data)
         self.last_element = ''
 
+    @staticmethod
+    def _keep_html5_reference(match):
+        # References that HTML 4 does not define are not decoded
+        name = match.group(1)
+        if (name in name2codepoint or name == 'apos'
+                or f'{name};' not in html5):
+            return match.group()
+        return f'&amp;{name}'
+
+    @staticmethod
+    def _escape_value(value):
+        return escape(value or '', {'"': '&quot;'})
+
     # override the parser's feed function
     def feed(self, data):
         """
@@ -756,8 +749,10 @@ class SAMIParser(HTMLParser):
         data = data.replace('<i/>', '<i>')
 
         # fix awkward tags found in some SAMIs
-        data = data.replace(';>', '>')
+        data = re.sub(r'(<[a-zA-Z][^<>]*);>', r'\1>', data)
+        data = re.sub('&([a-zA-Z0-9]+);', self._keep_html5_reference, data)
         HTMLParser.feed(self, data)
+        HTMLParser.close(self)
 
         # close any tags that remain in the queue
         while self.queue != deque([]):
-- 
2.43.0


From 6e72754a88b0f1385f2180850751a0e5924bf261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:41 +0000
Subject: [PATCH 17/64] fix: WebVTT writer left style tags open across, and no
 blank line between, the cues of a caption split by layout

---
 pycaption/webvtt.py | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index 656edfa..6ac6a5b 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -272,7 +272,7 @@ class WebVTTWriter(BaseWriter):
         end = self._timestamp(caption.end)
         timespan = f"{start} --> {end}"
 
-        output = ""
+        cues = []
 
         cue_style_tags = ["", ""]
 
@@ -288,10 +288,11 @@ class WebVTTWriter(BaseWriter):
             if not layout:
                 layout = caption.layout_info or self.global_layout
             cue_settings = self._convert_positioning(layout)
-            output += timespan + cue_settings + "\n"
-            output += cue_style_tags[0] + cue_text + cue_style_tags[1] + "\n"
+            cue = timespan + cue_settings + "\n"
+            cue += cue_style_tags[0] + cue_text + cue_style_tags[1] + "\n"
+            cues.append(cue)
 
-        return output
+        return "\n".join(cues)
 
     def _convert_positioning(self, layout):
         """
@@ -400,35 +401,46 @@ class WebVTTWriter(BaseWriter):
         # A properly encoded WebVTT string (plain unicode must be properly
         # escaped before being appended to this string)
         s = ""
+        # The (start, end) tags of the open styles, now and after the last text
+        open_tags = []
+        tags_at_text_end = []
+        text_end = 0
         for i, node in enumerate(nodes):
             if node.type_ == CaptionNode.TEXT:
                 if s and current_layout and node.layout_info != current_layout:
                     # If the positioning changes from one text node to
-                    # another, a new WebVTT cue has to be created.
+                    # another, a new WebVTT cue has to be created. The styles
+                    # that are still open continue in it.
+                    s = s[:text_end] + "".join(
+                        end for _, end in reversed(tags_at_text_end)
+                    )
                     layout_groups.append((s, current_layout))
-                    s = ""
+                    s = "".join(start for start, _ in open_tags)
                 # ATTENTION: This is where the plain unicode node content is
                 # finally encoded as WebVTT.
                 s += self._encode_illegal_characters(node.content) or "&nbsp;"
                 # The arrow may have been formed by two adjacent nodes
                 s = s.replace("-->", "--&gt;")
                 current_layout = node.layout_info
+                text_end = len(s)
+                tags_at_text_end = list(open_tags)
             elif node.type_ == CaptionNode.STYLE:
                 resulting_style = self._calculate_resulting_style(
                     node.content, caption_set
                 )
 
-                styles = ["italics", "underline", "bold"]
-                if not node.start:
-                    styles.reverse()
-
-                for style in styles:
+                start_tag = end_tag = ""
+                for style in ["italics", "underline", "bold"]:
                     if style in resulting_style and resulting_style[style]:
                         tags = self._convert_style_to_text_tag(style)
-                        if node.start:
-                            s += tags[0]
-                        else:
-                            s += tags[1]
+                        start_tag += tags[0]
+                        end_tag = tags[1] + end_tag
+
+                if node.start:
+                    s += start_tag
+                    open_tags.append((start_tag, end_tag))
+                elif open_tags:
+                    s += open_tags.pop()[1]
 
                 # TODO: Refactor pycaption and eliminate the concept of a
                 # "Style node"
-- 
2.43.0


From 41ac155a8d7c5b31e9fe1c2150d682505cddff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:33 +0000
Subject: [PATCH 18/64] fix: DFXP writers put attribute values into the
 document unescaped, and characters XML cannot hold

---
 pycaption/dfxp/base.py   | 33 +++++++++++++++++++++++++++++----
 pycaption/dfxp/extras.py | 11 ++++++-----
 2 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index f63706d..8f4e996 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -1,10 +1,11 @@
 import re
 from copy import deepcopy
 from fractions import Fraction
-from xml.sax.saxutils import escape
+from xml.sax.saxutils import escape, quoteattr
 
 from bs4 import BeautifulSoup, NavigableString
 from bs4.element import PreformattedString, CData
+from bs4.formatter import XMLFormatter
 
 from ..base import (
     BaseReader, BaseWriter, CaptionSet, CaptionList, Caption, CaptionNode,
@@ -68,6 +69,30 @@ MICROSECONDS_PER_UNIT = {
 
 DFXP_DEFAULT_LANGUAGE_CODE = "en"
 
+# Characters that an XML 1.0 document can't contain, not even escaped
+ILLEGAL_XML_CHARACTERS = re.compile(
+    '[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')
+
+
+def encode_text(s):
+    """Escapes a string, to be used as the text of an XML element"""
+    return escape(ILLEGAL_XML_CHARACTERS.sub('', s))
+
+
+def encode_attribute(s):
+    """Escapes and quotes a string, to be used as an XML attribute value"""
+    return quoteattr(ILLEGAL_XML_CHARACTERS.sub('', str(s)))
+
+
+class MarkupFormatter(XMLFormatter):
+    """Escapes the attribute values, but leaves the text as it is: the content
+    of the paragraphs is already markup.
+    """
+    def attribute_value(self, value):
+        # quoting it is up to BeautifulSoup
+        return escape(ILLEGAL_XML_CHARACTERS.sub('', value), {
+            '\t': '&#9;', '\n': '&#10;', '\r': '&#13;'})
+
 
 class DFXPReader(BaseReader):
     def __init__(self, *args, **kw):
@@ -391,7 +416,7 @@ class DFXPWriter(BaseWriter):
 
             body.append(div)
         self.region_creator.cleanup_regions()
-        caption_content = dfxp.prettify(formatter=None)
+        caption_content = dfxp.prettify(formatter=MarkupFormatter())
         return caption_content
 
     @staticmethod
@@ -478,7 +503,7 @@ class DFXPWriter(BaseWriter):
 
             content_with_style = _recreate_style(node.content, dfxp)
             for style, value in list(content_with_style.items()):
-                styles += f' {style}="{value}"'
+                styles += f' {style}={encode_attribute(value)}'
             if node.layout_info:
                 region_id, region_attribs = (
                     self.region_creator.get_positioning_info(
@@ -513,7 +538,7 @@ class DFXPWriter(BaseWriter):
         :type s: str
         :param s: The content of a text node
         """
-        return escape(s)
+        return encode_text(s)
 
 
 class LayoutAwareDFXPParser(BeautifulSoup):
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 70a60c8..720136a 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -2,11 +2,12 @@
 # in a lot of cases, but since the transformations on them could be quite
 # complex, the deepcopy method is good enough sometimes.
 from copy import deepcopy
-from xml.sax.saxutils import escape
 
 from bs4 import BeautifulSoup
 
-from .base import DFXPWriter, DFXP_DEFAULT_REGION
+from .base import (
+    DFXPWriter, DFXP_DEFAULT_REGION, MarkupFormatter, encode_attribute, encode_text
+)
 from ..base import BaseWriter, CaptionNode, merge_concurrent_captions
 
 LEGACY_DFXP_BASE_MARKUP = '''
@@ -139,7 +140,7 @@ class LegacyDFXPWriter(BaseWriter):
 
             body.append(div)
 
-        caption_content = dfxp.prettify(formatter=None)
+        caption_content = dfxp.prettify(formatter=MarkupFormatter())
         return caption_content
 
     # force the DFXP to only have one language, trying to match on "force"
@@ -195,7 +196,7 @@ class LegacyDFXPWriter(BaseWriter):
 
         for node in caption.nodes:
             if node.type_ == CaptionNode.TEXT:
-                line += escape(node.content) + ' '
+                line += encode_text(node.content) + ' '
 
             elif node.type_ == CaptionNode.BREAK:
                 line = line.rstrip() + '<br/>\n    '
@@ -211,7 +212,7 @@ class LegacyDFXPWriter(BaseWriter):
 
             content_with_style = self._recreate_style(node.content, dfxp)
             for style, value in list(content_with_style.items()):
-                styles += f' {style}="{value}"'
+                styles += f' {style}={encode_attribute(value)}'
 
             if styles:
                 if self.open_span:
-- 
2.43.0


From 7159ae8df0256794eb0b4ffb834e0bb7eed81417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:35 +0000
Subject: [PATCH 19/64] fix: DFXP writer gave a span the same attribute twice
 when it wrote positioning inline

---
 pycaption/dfxp/base.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 8f4e996..418441e 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -501,22 +501,17 @@ class DFXPWriter(BaseWriter):
         if node.start:
             styles = ''
 
-            content_with_style = _recreate_style(node.content, dfxp)
-            for style, value in list(content_with_style.items()):
-                styles += f' {style}={encode_attribute(value)}'
+            attributes = _recreate_style(node.content, dfxp)
             if node.layout_info:
                 region_id, region_attribs = (
                     self.region_creator.get_positioning_info(
                         lang, caption_set, caption, node
                     ))
-                styles += f' region="{region_id}"'
+                attributes['region'] = region_id
                 if self.write_inline_positioning:
-                    styles += ' ' + ' '.join(
-                        [
-                            f'{k_}="{v_}"'
-                            for k_, v_ in list(region_attribs.items())
-                        ]
-                    )
+                    attributes.update(region_attribs)
+            for attribute, value in attributes.items():
+                styles += f' {attribute}={encode_attribute(value)}'
 
             if styles:
                 if self.open_span:
-- 
2.43.0


From c3b93c7a752c7300ba818c4b43a381fed59c1a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:17 +0000
Subject: [PATCH 20/64] fix: DFXP writers took any style name for an xml:id,
 which has to be an XML name

---
 pycaption/dfxp/base.py   | 15 +++++++++++++--
 pycaption/dfxp/extras.py |  9 ++++++---
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 418441e..47b91c1 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -84,6 +84,15 @@ def encode_attribute(s):
     return quoteattr(ILLEGAL_XML_CHARACTERS.sub('', str(s)))
 
 
+def encode_id(name):
+    """Returns a valid xml:id for the name of a style: a different one for
+    every name, and the name itself if possible
+    """
+    return re.sub(
+        r'^[^A-Za-z_]|[^\w.-]|_(?=x[0-9a-f]+_)',
+        lambda match: f'_x{ord(match.group()):04x}_', str(name), flags=re.ASCII)
+
+
 class MarkupFormatter(XMLFormatter):
     """Escapes the attribute values, but leaves the text as it is: the content
     of the paragraphs is already markup.
@@ -448,6 +457,7 @@ class DFXPWriter(BaseWriter):
 
     def _recreate_styling_tag(self, style, content, dfxp):
         # TODO - should be drastically simplified: if attributes : append
+        style = encode_id(style)
         dfxp_style = dfxp.new_tag('style')
         dfxp_style.attrs.update({'xml:id': style})
 
@@ -1188,8 +1198,9 @@ def _recreate_style(content, dfxp):
     dfxp_style = {}
 
     if 'class' in content:
-        if dfxp.find("style", {"xml:id": content['class']}):
-            dfxp_style['style'] = content['class']
+        style_id = encode_id(content['class'])
+        if dfxp.find("style", {"xml:id": style_id}):
+            dfxp_style['style'] = style_id
     if 'text-align' in content:
         dfxp_style['tts:textAlign'] = content['text-align']
     if 'italics' in content:
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 720136a..1b397dd 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -6,7 +6,8 @@ from copy import deepcopy
 from bs4 import BeautifulSoup
 
 from .base import (
-    DFXPWriter, DFXP_DEFAULT_REGION, MarkupFormatter, encode_attribute, encode_text
+    DFXPWriter, DFXP_DEFAULT_REGION, MarkupFormatter, encode_attribute,
+    encode_id, encode_text,
 )
 from ..base import BaseWriter, CaptionNode, merge_concurrent_captions
 
@@ -165,6 +166,7 @@ class LegacyDFXPWriter(BaseWriter):
         return dfxp
 
     def _recreate_styling_tag(self, style, content, dfxp):
+        style = encode_id(style)
         dfxp_style = dfxp.new_tag('style')
         dfxp_style.attrs.update({'xml:id': style})
 
@@ -233,8 +235,9 @@ class LegacyDFXPWriter(BaseWriter):
             if dfxp.find('region', {'xml:id': content['region']}):
                 dfxp_style['region'] = content['region']
         if 'class' in content:
-            if dfxp.find("style", {"xml:id": content['class']}):
-                dfxp_style['style'] = content['class']
+            style_id = encode_id(content['class'])
+            if dfxp.find("style", {"xml:id": style_id}):
+                dfxp_style['style'] = style_id
         if 'text-align' in content:
             dfxp_style['tts:textAlign'] = content['text-align']
         if 'italics' in content:
-- 
2.43.0


From cd3ad283ffa2159520dfb2d18a8a8a8357729f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:41 +0000
Subject: [PATCH 21/64] fix: DFXP writers gave a region the id of a style, and
 the legacy one defined a region that nothing used

---
 pycaption/dfxp/base.py   |  9 +++++++--
 pycaption/dfxp/extras.py | 17 +++++++++++------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 47b91c1..9158b59 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -1030,6 +1030,7 @@ class RegionCreator:
         self._region_map = {}
         self._id_seed = 0
         self._assigned_region_ids = set()
+        self._default_region_id = DFXP_DEFAULT_REGION_ID
 
     @staticmethod
     def _collect_unique_regions(caption_set, ignore_region):
@@ -1104,9 +1105,11 @@ class RegionCreator:
         Makes sure we have a default region
         """
         # Creates the default region
+        if self._dfxp.find('style', {'xml:id': DFXP_DEFAULT_REGION_ID}):
+            self._default_region_id = self._get_new_id()
         default_region_map = self._create_unique_regions(
             [DFXP_DEFAULT_REGION],
-            self._dfxp, lambda: DFXP_DEFAULT_REGION_ID
+            self._dfxp, lambda: self._default_region_id
         )
         unique_regions = self._collect_unique_regions(
             self._caption_set, DFXP_DEFAULT_REGION)
@@ -1124,6 +1127,8 @@ class RegionCreator:
         """
         new_id = f'{prefix}{self._id_seed}'
         self._id_seed += 1
+        if self._dfxp.find('style', {'xml:id': new_id}):
+            return self._get_new_id(prefix)
         return new_id
 
     def get_positioning_info(
@@ -1170,7 +1175,7 @@ class RegionCreator:
         # Make sure the default region ID/ attributes are always returned
         # as fallback
         if not region_id:
-            region_id = DFXP_DEFAULT_REGION_ID
+            region_id = self._default_region_id
 
         positioning_attributes = _convert_layout_to_attributes(layout_info)
 
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 1b397dd..395a13c 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -114,8 +114,11 @@ class LegacyDFXPWriter(BaseWriter):
 
         # XXX For now we will always use this default region. In the future if
         # regions are provided, they will be kept
+        region_id = LEGACY_DFXP_DEFAULT_REGION_ID
+        while dfxp.find('style', {'xml:id': region_id}):
+            region_id += '_'
         dfxp = self._recreate_region_tag(
-            LEGACY_DFXP_DEFAULT_REGION_ID, LEGACY_DFXP_DEFAULT_REGION, dfxp)
+            region_id, LEGACY_DFXP_DEFAULT_REGION, dfxp)
 
         body = dfxp.find('body')
 
@@ -130,17 +133,19 @@ class LegacyDFXPWriter(BaseWriter):
 
             for caption in caption_set.get_captions(lang):
                 if caption.style:
-                    caption_style = caption.style
-                    caption_style.update(
-                        {'region': LEGACY_DFXP_DEFAULT_REGION_ID})
+                    caption_style = dict(caption.style)
                 else:
-                    caption_style = {'class': LEGACY_DFXP_DEFAULT_STYLE_ID,
-                                     'region': LEGACY_DFXP_DEFAULT_REGION_ID}
+                    caption_style = {'class': LEGACY_DFXP_DEFAULT_STYLE_ID}
+                caption_style['region'] = region_id
                 p = self._recreate_p_tag(caption, caption_style, dfxp)
                 div.append(p)
 
             body.append(div)
 
+        if not body.find('p'):
+            # nothing refers to the region
+            dfxp.find('region').extract()
+
         caption_content = dfxp.prettify(formatter=MarkupFormatter())
         return caption_content
 
-- 
2.43.0


From 00969289904683462393a25eccc7d0535f52eee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:55 +0000
Subject: [PATCH 22/64] fix: DFXP writer did not relativize the layout of a
 language or of the whole set, nor fit captions that inherit it to the screen

---
 pycaption/dfxp/base.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 9158b59..cf1f69e 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -385,10 +385,19 @@ class DFXPWriter(BaseWriter):
 
         # Loop through all captions/nodes and apply transformations to layout
         # in function of the provided or default settings
+        if self.relativize and caption_set.layout_info:
+            caption_set.layout_info = caption_set.layout_info.as_percentage_of(
+                self.video_width, self.video_height)
         for lang in langs:
+            lang_layout = caption_set.get_layout_info(lang)
+            if self.relativize and lang_layout:
+                lang_layout = lang_layout.as_percentage_of(
+                    self.video_width, self.video_height)
+                caption_set.set_layout_info(lang, lang_layout)
             for caption in caption_set.get_captions(lang):
                 caption.layout_info = self._relativize_and_fit_to_screen(
-                    caption.layout_info)
+                    caption.layout_info or lang_layout
+                    or caption_set.layout_info)
                 for node in caption.nodes:
                     node.layout_info = self._relativize_and_fit_to_screen(
                         node.layout_info)
-- 
2.43.0


From be50283a881a8399d95953ce37c3750025297ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:57 +0000
Subject: [PATCH 23/64] fix: DFXP writer lost the layout of the whole caption
 set

---
 pycaption/dfxp/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index cf1f69e..86eee75 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -1073,6 +1073,9 @@ class RegionCreator:
                 for node in caption.nodes:
                     unique_regions.add(node.layout_info)
 
+        # ...and that of the whole set
+        unique_regions.add(caption_set.layout_info)
+
         unique_regions.discard(None)
         unique_regions.discard(ignore_region)
         return unique_regions
-- 
2.43.0


From 22996ead322e8839da70418112da7164b0f58c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:24 +0000
Subject: [PATCH 24/64] fix: DFXP writer wrote only the language without a code
 when no language was forced

---
 pycaption/dfxp/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 86eee75..470b248 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -375,7 +375,7 @@ class DFXPWriter(BaseWriter):
         dfxp = BeautifulSoup(DFXP_BASE_MARKUP, 'lxml-xml')
 
         langs = caption_set.get_languages()
-        if force in langs:
+        if force and force in langs:
             langs = [force]
             dfxp.find('tt')['xml:lang'] = force
         else:
-- 
2.43.0


From 8bcd1ce32e17c0ec9d63291e3380b4e9f268bf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:46 +0000
Subject: [PATCH 25/64] fix: SRT, DFXP and SAMI writers put spaces around text
 nodes and spans that the text did not have

---
 pycaption/dfxp/base.py |  4 ++--
 pycaption/sami.py      | 28 +++++++++++++++++++++++-----
 pycaption/srt.py       |  2 +-
 3 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 470b248..80d9447 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -534,12 +534,12 @@ class DFXPWriter(BaseWriter):
 
             if styles:
                 if self.open_span:
-                    line = line.rstrip() + '</span> '
+                    line += '</span>'
                 line += f'<span{styles}>'
                 self.open_span = True
 
         elif self.open_span:
-            line = line.rstrip() + '</span> '
+            line += '</span>'
             self.open_span = False
 
         return line
diff --git a/pycaption/sami.py b/pycaption/sami.py
index 12a8d14..804d19a 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -573,29 +573,47 @@ class SAMIWriter(BaseWriter):
 
     def _recreate_text(self, caption):
         line = ''
+        separator = ' ' if self._has_nested_spans(caption) else ''
 
         for node in caption:
             if node.type_ == CaptionNode.TEXT:
-                line += self._encode(node.content) + ' '
+                line += self._encode(node.content) + separator
             elif node.type_ == CaptionNode.BREAK:
                 line = line.rstrip() + '<br/>\n    '
             elif node.type_ == CaptionNode.STYLE:
-                line = self._recreate_line_style(line, node)
+                line = self._recreate_line_style(line, node, separator)
 
         return line.rstrip()
 
-    def _recreate_line_style(self, line, node):
+    @staticmethod
+    def _has_nested_spans(nodes):
+        """Nested spans are written one after the other, set apart by spaces"""
+        depth = 0
+        for node in nodes:
+            if node.type_ == CaptionNode.STYLE:
+                depth += 1 if node.start else -1
+                if depth > 1:
+                    return True
+        return False
+
+    def _recreate_line_style(self, line, node, separator=''):
         if node.start:
             if self.open_span:
-                line = line.rstrip() + '</span> '
+                line = self._close_span(line, separator)
             line = self._recreate_span(line, node.content)
         else:
             if self.open_span:
-                line = line.rstrip() + '</span> '
+                line = self._close_span(line, separator)
                 self.open_span = False
 
         return line
 
+    @staticmethod
+    def _close_span(line, separator):
+        if separator:
+            line = line.rstrip()
+        return f'{line}</span>{separator}'
+
     def _recreate_span(self, line, content):
         style = ''
         klass = ''
diff --git a/pycaption/srt.py b/pycaption/srt.py
index 0f49860..6b178cf 100644
--- a/pycaption/srt.py
+++ b/pycaption/srt.py
@@ -146,7 +146,7 @@ class SRTWriter(BaseWriter):
 
     def _recreate_line(self, srt, line):
         if line.type_ == CaptionNode.TEXT:
-            return srt + f'{line.content} '
+            return srt + line.content
         elif line.type_ == CaptionNode.BREAK:
             return srt + '\n'
         else:
-- 
2.43.0


From bf8147d9fae5201839dcdac4d50b92c6e91ef99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:01 +0000
Subject: [PATCH 26/64] fix: legacy DFXP writer put spaces around text nodes
 and spans that the text did not have

---
 pycaption/dfxp/extras.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 395a13c..f0e2d7f 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -203,7 +203,7 @@ class LegacyDFXPWriter(BaseWriter):
 
         for node in caption.nodes:
             if node.type_ == CaptionNode.TEXT:
-                line += encode_text(node.content) + ' '
+                line += encode_text(node.content)
 
             elif node.type_ == CaptionNode.BREAK:
                 line = line.rstrip() + '<br/>\n    '
@@ -223,12 +223,12 @@ class LegacyDFXPWriter(BaseWriter):
 
             if styles:
                 if self.open_span:
-                    line = line.rstrip() + '</span> '
+                    line += '</span>'
                 line += f'<span{styles}>'
                 self.open_span = True
 
         elif self.open_span:
-            line = line.rstrip() + '</span> '
+            line += '</span>'
             self.open_span = False
 
         return line
-- 
2.43.0


From 095275fd348808195f3c314f0470092d24363c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:04 +0000
Subject: [PATCH 27/64] fix: DFXP and SAMI writers closed a span that an
 earlier caption or write left open

---
 pycaption/dfxp/base.py   | 1 +
 pycaption/dfxp/extras.py | 1 +
 pycaption/sami.py        | 1 +
 3 files changed, 3 insertions(+)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 80d9447..94b5cb4 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -496,6 +496,7 @@ class DFXPWriter(BaseWriter):
 
     def _recreate_text(self, caption, dfxp, caption_set=None, lang=None):
         line = ''
+        self.open_span = False
 
         for node in caption.nodes:
             if node.type_ == CaptionNode.TEXT:
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index f0e2d7f..63724c9 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -200,6 +200,7 @@ class LegacyDFXPWriter(BaseWriter):
 
     def _recreate_text(self, caption, dfxp):
         line = ''
+        self.open_span = False
 
         for node in caption.nodes:
             if node.type_ == CaptionNode.TEXT:
diff --git a/pycaption/sami.py b/pycaption/sami.py
index 804d19a..94f4308 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -573,6 +573,7 @@ class SAMIWriter(BaseWriter):
 
     def _recreate_text(self, caption):
         line = ''
+        self.open_span = False
         separator = ' ' if self._has_nested_spans(caption) else ''
 
         for node in caption:
-- 
2.43.0


From c2457ae51f1952339335ab998a5222c8a4e2536f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:36 +0000
Subject: [PATCH 28/64] fix: SAMI reader listed the languages in hash order,
 and filed the captions of a regional variant under the base language too

---
 pycaption/sami.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 94f4308..9cbf875 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -192,7 +192,7 @@ class SAMIReader(BaseReader):
         captions = CaptionList(layout_info=parent_layout)
         milliseconds = 0
 
-        for p in sami_soup.select(f'p[lang|={language}]'):
+        for p in sami_soup.find_all('p', lang=language):
             start_str = p.parent.get('start')
             if not start_str:
                 raise CaptionReadTimingError(
@@ -667,7 +667,7 @@ class SAMIParser(HTMLParser):
         self.line = ''
         self.styles = {}
         self.queue = deque()
-        self.langs = set()
+        self.langs = []
         self.last_element = ''
 
     def handle_starttag(self, tag, attrs):
@@ -688,8 +688,10 @@ class SAMIParser(HTMLParser):
 
             # if no language detected, set it as the default
             lang = lang or DEFAULT_LANGUAGE_CODE
+            attrs = [(attr, value) for attr, value in attrs if attr != 'lang']
             attrs.append(('lang', lang))
-            self.langs.add(lang)
+            if lang not in self.langs:
+                self.langs.append(lang)
 
         # clean-up line breaks
         if tag == 'br':
@@ -745,7 +747,7 @@ class SAMIParser(HTMLParser):
     def feed(self, data):
         """
         :param data: Raw SAMI unicode string
-        :returns: tuple (str, dict, set)
+        :returns: tuple (str, dict, list)
         """
         no_cc = 'no closed captioning available'
 
-- 
2.43.0


From 94c228e98b999f367da1e74edaba3e294ea7f17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:36 +0000
Subject: [PATCH 29/64] fix: DFXP writers wrote italics for a style that turns
 them off

---
 pycaption/dfxp/base.py   | 2 +-
 pycaption/dfxp/extras.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 94b5cb4..54b3fd3 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -1221,7 +1221,7 @@ def _recreate_style(content, dfxp):
             dfxp_style['style'] = style_id
     if 'text-align' in content:
         dfxp_style['tts:textAlign'] = content['text-align']
-    if 'italics' in content:
+    if content.get('italics'):
         dfxp_style['tts:fontStyle'] = 'italic'
     if 'font-family' in content:
         dfxp_style['tts:fontFamily'] = content['font-family']
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 63724c9..813cde0 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -246,7 +246,7 @@ class LegacyDFXPWriter(BaseWriter):
                 dfxp_style['style'] = style_id
         if 'text-align' in content:
             dfxp_style['tts:textAlign'] = content['text-align']
-        if 'italics' in content:
+        if content.get('italics'):
             dfxp_style['tts:fontStyle'] = 'italic'
         if 'font-family' in content:
             dfxp_style['tts:fontFamily'] = content['font-family']
-- 
2.43.0


From bcfbf636d73aa31efeb9ecdedd66f26c36d1cea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:38 +0000
Subject: [PATCH 30/64] fix: SAMI writer wrote flags that are turned off as CSS
 properties, which its reader took for turned on

---
 pycaption/sami.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 9cbf875..d229706 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -640,12 +640,15 @@ class SAMIWriter(BaseWriter):
 
         for key, value in list(rules.items()):
             # Recreate original CSS rules from internal style
-            if key == 'italics' and value is True:
-                sami_style['font-style'] = 'italic'
-            elif key == 'bold' and value is True:
-                sami_style['font-weight'] = 'bold'
-            elif key == 'underline' and value is True:
-                sami_style['text-decoration'] = 'underline'
+            if key == 'italics':
+                if value:
+                    sami_style['font-style'] = 'italic'
+            elif key == 'bold':
+                if value:
+                    sami_style['font-weight'] = 'bold'
+            elif key == 'underline':
+                if value:
+                    sami_style['text-decoration'] = 'underline'
             else:
                 sami_style[key] = value
 
-- 
2.43.0


From e3af4189b4889ebbca4df7affcf7950d630de2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:51 +0000
Subject: [PATCH 31/64] fix: SAMI writer did not escape style values in the
 attributes of a span

---
 pycaption/sami.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index d229706..8dc41cf 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -42,7 +42,7 @@ from copy import deepcopy
 from html.entities import html5, name2codepoint
 from html.parser import HTMLParser
 from logging import FATAL
-from xml.sax.saxutils import escape
+from xml.sax.saxutils import escape, quoteattr
 
 from bs4 import BeautifulSoup, NavigableString
 from cssutils import parseString, log, css as cssutils_css
@@ -619,14 +619,14 @@ class SAMIWriter(BaseWriter):
         style = ''
         klass = ''
         if 'class' in content:
-            klass += f' class="{content["class"]}"'
+            klass += f' class={quoteattr(content["class"])}'
 
         for attr, value in list(self._recreate_style(content).items()):
             style += f'{attr}:{value};'
 
         if style or klass:
             if style:
-                style = f' style="{style}"'
+                style = f' style={quoteattr(style)}'
             line += f'<span{klass}{style}>'
             self.open_span = True
 
-- 
2.43.0


From 2b8acfedf68eac9c37b1c65fd5aa0390da34d85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:37 +0000
Subject: [PATCH 32/64] fix: SAMI writer dropped the italics, bold and
 underline of a whole caption

---
 pycaption/sami.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 8dc41cf..eae2ca7 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -464,6 +464,10 @@ class SAMIWriter(BaseWriter):
         if p_style:
             p['p_style'] = p_style
 
+        text_style = self._recreate_text_style(caption.style, captions)
+        if text_style:
+            p['style'] = text_style
+
         p['class'] = self._recreate_p_lang(caption, lang, captions)
         p.string = self._recreate_text(caption.nodes)
 
@@ -518,6 +522,26 @@ class SAMIWriter(BaseWriter):
             pass
         return lang
 
+    def _recreate_text_style(self, style, captions):
+        """
+        The italics, bold and underline of a whole caption, which may come from
+        a class that its p tag does not have
+
+        :rtype: str
+        """
+        flags, pending, seen = {}, [style], []
+        while pending:
+            rules = pending.pop()
+            for flag in ('italics', 'bold', 'underline'):
+                flags[flag] = flags.get(flag) or rules.get(flag)
+            for name in rules.get('classes') or [rules.get('class')]:
+                if name not in seen:
+                    seen.append(name)
+                    pending.append(captions.get_style(name))
+
+        return ''.join(f'{attr}:{value};' for attr, value
+                       in self._recreate_style(flags).items())
+
     def _recreate_stylesheet(self, caption_set, classes=()):
         """
         :param classes: the classes of the paragraphs of the document
-- 
2.43.0


From 80d3ae33d29aef61ed68f1b0131fde2c82f21fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:39 +0000
Subject: [PATCH 33/64] fix: SAMI writer closed nested spans twice

---
 pycaption/sami.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index eae2ca7..2e63f2a 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -625,6 +625,7 @@ class SAMIWriter(BaseWriter):
         if node.start:
             if self.open_span:
                 line = self._close_span(line, separator)
+                self.open_span = False
             line = self._recreate_span(line, node.content)
         else:
             if self.open_span:
-- 
2.43.0


From 6b78c53bebc8830ce2e475b03268b687ccc4bee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:06 +0000
Subject: [PATCH 34/64] fix: SAMI reader ignored the properties of a style
 attribute that follow a space or are in capitals

---
 pycaption/sami.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 2e63f2a..463ceb1 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -324,7 +324,7 @@ class SAMIReader(BaseReader):
         for style in styles:
             style = style.split(':')
             if len(style) == 2:
-                css_property, value = style
+                css_property, value = style[0].strip().lower(), style[1]
             else:
                 continue
             if css_property == 'text-align':
-- 
2.43.0


From c0e7ecd45636614df5925541000db32e25764018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:20 +0000
Subject: [PATCH 35/64] fix: DFXP writers dropped references to several styles

---
 pycaption/dfxp/base.py   | 15 +++++++++++----
 pycaption/dfxp/extras.py |  9 ++++-----
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 54b3fd3..6178cac 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -1215,10 +1215,9 @@ class RegionCreator:
 def _recreate_style(content, dfxp):
     dfxp_style = {}
 
-    if 'class' in content:
-        style_id = encode_id(content['class'])
-        if dfxp.find("style", {"xml:id": style_id}):
-            dfxp_style['style'] = style_id
+    style_ids = recreate_style_references(content, dfxp)
+    if style_ids:
+        dfxp_style['style'] = style_ids
     if 'text-align' in content:
         dfxp_style['tts:textAlign'] = content['text-align']
     if content.get('italics'):
@@ -1235,6 +1234,14 @@ def _recreate_style(content, dfxp):
     return dfxp_style
 
 
+def recreate_style_references(content, dfxp):
+    """Returns the ids of the defined styles among the classes of a style"""
+    names = content.get('classes') or [content.get('class')]
+    style_ids = [encode_id(name) for name in names if name]
+    return ' '.join(style_id for style_id in style_ids
+                    if dfxp.find("style", {"xml:id": style_id}))
+
+
 # TODO - highly cacheable. use WeakValueDict to improve performance
 def _create_internal_alignment(text_align, display_align):
     """Given the 2 DFXP specific attributes, return the internal representation
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 813cde0..af021ec 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -7,7 +7,7 @@ from bs4 import BeautifulSoup
 
 from .base import (
     DFXPWriter, DFXP_DEFAULT_REGION, MarkupFormatter, encode_attribute,
-    encode_id, encode_text,
+    encode_id, encode_text, recreate_style_references,
 )
 from ..base import BaseWriter, CaptionNode, merge_concurrent_captions
 
@@ -240,10 +240,9 @@ class LegacyDFXPWriter(BaseWriter):
         if 'region' in content:
             if dfxp.find('region', {'xml:id': content['region']}):
                 dfxp_style['region'] = content['region']
-        if 'class' in content:
-            style_id = encode_id(content['class'])
-            if dfxp.find("style", {"xml:id": style_id}):
-                dfxp_style['style'] = style_id
+        style_ids = recreate_style_references(content, dfxp)
+        if style_ids:
+            dfxp_style['style'] = style_ids
         if 'text-align' in content:
             dfxp_style['tts:textAlign'] = content['text-align']
         if content.get('italics'):
-- 
2.43.0


From c3177c66e0a63e6354818ba30a84330ced4afa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:21 +0000
Subject: [PATCH 36/64] fix: SAMI reader ignored all but the first class of a
 span

---
 pycaption/sami.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 463ceb1..488c036 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -310,7 +310,10 @@ class SAMIReader(BaseReader):
         css_attrs = tag.attrs
 
         if 'class' in css_attrs:
-            attrs['class'] = css_attrs['class'][0].lower()
+            classes = [name.lower() for name in css_attrs['class']]
+            attrs['class'] = classes[0]
+            if tag.name != 'p' and len(classes) > 1:
+                attrs['classes'] = classes
         if 'id' in css_attrs:
             attrs['class'] = css_attrs['id'].lower()
         if 'style' in css_attrs:
@@ -644,7 +647,8 @@ class SAMIWriter(BaseWriter):
         style = ''
         klass = ''
         if 'class' in content:
-            klass += f' class={quoteattr(content["class"])}'
+            classes = content.get('classes') or [content['class']]
+            klass += f' class={quoteattr(" ".join(classes))}'
 
         for attr, value in list(self._recreate_style(content).items()):
             style += f'{attr}:{value};'
-- 
2.43.0


From 098c917dda020c8b98fab836407f2661109bc0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:23 +0000
Subject: [PATCH 37/64] fix: DFXP writers dropped references of a style to one
 that comes after it

---
 pycaption/dfxp/base.py   | 25 ++++++++++++++++++++++---
 pycaption/dfxp/extras.py |  3 ++-
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 6178cac..f4338e1 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -403,7 +403,7 @@ class DFXPWriter(BaseWriter):
                         node.layout_info)
 
         # Create the styles in the <styling> section, or a default style.
-        for style_id, style in caption_set.get_styles():
+        for style_id, style in sort_styles(caption_set.get_styles()):
             if style != {}:
                 dfxp = self._recreate_styling_tag(style_id, style, dfxp)
         if not caption_set.get_styles():
@@ -1234,10 +1234,29 @@ def _recreate_style(content, dfxp):
     return dfxp_style
 
 
+def _get_classes(content):
+    return [name for name in content.get('classes') or [content.get('class')]
+            if name]
+
+
+def sort_styles(styles):
+    """Moves the styles that others refer to before these: a reference to a
+    style that is not written yet would be dropped
+    """
+    pending, ordered = list(styles), []
+    while pending:
+        names = {name for name, _ in pending}
+        ready = [(name, content) for name, content in pending
+                 if not names.difference([name]).intersection(
+                     _get_classes(content))]
+        ordered.append((ready or pending)[0])
+        pending.remove(ordered[-1])
+    return ordered
+
+
 def recreate_style_references(content, dfxp):
     """Returns the ids of the defined styles among the classes of a style"""
-    names = content.get('classes') or [content.get('class')]
-    style_ids = [encode_id(name) for name in names if name]
+    style_ids = [encode_id(name) for name in _get_classes(content)]
     return ' '.join(style_id for style_id in style_ids
                     if dfxp.find("style", {"xml:id": style_id}))
 
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index af021ec..0ab0d6c 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -8,6 +8,7 @@ from bs4 import BeautifulSoup
 from .base import (
     DFXPWriter, DFXP_DEFAULT_REGION, MarkupFormatter, encode_attribute,
     encode_id, encode_text, recreate_style_references,
+    sort_styles,
 )
 from ..base import BaseWriter, CaptionNode, merge_concurrent_captions
 
@@ -105,7 +106,7 @@ class LegacyDFXPWriter(BaseWriter):
         dfxp = BeautifulSoup(LEGACY_DFXP_BASE_MARKUP, 'lxml-xml')
         dfxp.find('tt')['xml:lang'] = "en"
 
-        for style_id, style in caption_set.get_styles():
+        for style_id, style in sort_styles(caption_set.get_styles()):
             if style != {}:
                 dfxp = self._recreate_styling_tag(style_id, style, dfxp)
         if not caption_set.get_styles():
-- 
2.43.0


From 934d4fcab1776be32afcb63e7d227c8ce5201718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:03 +0000
Subject: [PATCH 38/64] fix: SAMI writer lost the italics, bold and underline
 that a style takes from another one

---
 pycaption/sami.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 488c036..dd63341 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -532,6 +532,17 @@ class SAMIWriter(BaseWriter):
 
         :rtype: str
         """
+        flags = self._resolve_flags(style, captions)
+        return ''.join(f'{attr}:{value};' for attr, value
+                       in self._recreate_style(flags).items())
+
+    @staticmethod
+    def _resolve_flags(style, captions):
+        """
+        The italics, bold and underline of a style and its classes
+
+        :rtype: dict
+        """
         flags, pending, seen = {}, [style], []
         while pending:
             rules = pending.pop()
@@ -542,8 +553,7 @@ class SAMIWriter(BaseWriter):
                     seen.append(name)
                     pending.append(captions.get_style(name))
 
-        return ''.join(f'{attr}:{value};' for attr, value
-                       in self._recreate_style(flags).items())
+        return flags
 
     def _recreate_stylesheet(self, caption_set, classes=()):
         """
@@ -555,8 +565,10 @@ class SAMIWriter(BaseWriter):
 
         for attr, value in caption_set.get_styles():
             if value != {}:
+                # There are no references between styles in CSS
+                flags = self._resolve_flags(value, caption_set)
                 stylesheet += self._recreate_style_block(
-                    attr, value, caption_set.layout_info)
+                    attr, {**value, **flags}, caption_set.layout_info)
 
         for lang in caption_set.get_languages():
             undeclared_class = (
-- 
2.43.0


From 7f5fd0c34f2d715f258d24f387b379197add9060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:34 +0000
Subject: [PATCH 39/64] fix: WebVTT: split cues by the layout in force, falling
 back to the caption, language and set

---
 pycaption/webvtt.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index 6ac6a5b..2c8cdce 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -214,7 +214,9 @@ class WebVTTWriter(BaseWriter):
         if lang is None:
             lang = caption_set.get_languages()[0]
 
-        self.global_layout = caption_set.get_layout_info(lang)
+        self.global_layout = (
+            caption_set.get_layout_info(lang) or caption_set.layout_info
+        )
 
         captions = caption_set.get_captions(lang)
 
@@ -266,7 +268,10 @@ class WebVTTWriter(BaseWriter):
         """
         :type caption: Caption
         """
-        layout_groups = self._group_cues_by_layout(caption.nodes, caption_set)
+        layout_groups = self._group_cues_by_layout(
+            caption.nodes, caption_set,
+            caption.layout_info or self.global_layout
+        )
 
         start = self._timestamp(caption.start)
         end = self._timestamp(caption.end)
@@ -285,8 +290,6 @@ class WebVTTWriter(BaseWriter):
                 cue_style_tags[1] = tags[1] + cue_style_tags[1]
 
         for cue_text, layout in layout_groups:
-            if not layout:
-                layout = caption.layout_info or self.global_layout
             cue_settings = self._convert_positioning(layout)
             cue = timespan + cue_settings + "\n"
             cue += cue_style_tags[0] + cue_text + cue_style_tags[1] + "\n"
@@ -384,15 +387,17 @@ class WebVTTWriter(BaseWriter):
 
         return cue_settings
 
-    def _group_cues_by_layout(self, nodes, caption_set):
+    def _group_cues_by_layout(self, nodes, caption_set, default_layout=None):
         """
         Convert a Caption's nodes to WebVTT cue or cues (depending on
         whether they have the same positioning or not).
+        :param default_layout: the Layout of the nodes without one of their own
         """
         if not nodes:
             return []
 
-        current_layout = None
+        current_layout = default_layout
+        has_text = False
 
         # A list with layout groups. Since WebVTT only support positioning
         # for different cues, each layout group has to be represented in a
@@ -407,7 +412,8 @@ class WebVTTWriter(BaseWriter):
         text_end = 0
         for i, node in enumerate(nodes):
             if node.type_ == CaptionNode.TEXT:
-                if s and current_layout and node.layout_info != current_layout:
+                layout = node.layout_info or default_layout
+                if has_text and layout != current_layout:
                     # If the positioning changes from one text node to
                     # another, a new WebVTT cue has to be created. The styles
                     # that are still open continue in it.
@@ -421,7 +427,8 @@ class WebVTTWriter(BaseWriter):
                 s += self._encode_illegal_characters(node.content) or "&nbsp;"
                 # The arrow may have been formed by two adjacent nodes
                 s = s.replace("-->", "--&gt;")
-                current_layout = node.layout_info
+                current_layout = layout
+                has_text = True
                 text_end = len(s)
                 tags_at_text_end = list(open_tags)
             elif node.type_ == CaptionNode.STYLE:
-- 
2.43.0


From 290b420056dcb1b7038d5670ac0ab44b9858f7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:11 +0000
Subject: [PATCH 40/64] fix: WebVTT: the left padding is cut out of the cue
 width without an origin, too

---
 pycaption/webvtt.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index 2c8cdce..f113bcd 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -346,15 +346,14 @@ class WebVTTWriter(BaseWriter):
             cue_width = layout.extent.horizontal
 
         if layout.padding:
+            # Since there is no padding in WebVTT, the left padding is
+            # added to the total left offset (if it is defined and not
+            # relative),
             if layout.padding.start and left_offset:
-                # Since there is no padding in WebVTT, the left padding is
-                # added to the total left offset (if it is defined and not
-                # relative),
-                if left_offset:
-                    left_offset += layout.padding.start
-                # and removed from the total cue width
-                if cue_width:
-                    cue_width -= layout.padding.start
+                left_offset += layout.padding.start
+            # and removed from the total cue width
+            if layout.padding.start and cue_width:
+                cue_width -= layout.padding.start
             # the right padding is cut out of the total cue width,
             if layout.padding.end and cue_width:
                 cue_width -= layout.padding.end
-- 
2.43.0


From 93fdd90b5b448bab7cf023baf245591ec6d283e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:57 +0000
Subject: [PATCH 41/64] fix: DFXP: write the layout of a text node that is not
 its container's

---
 pycaption/dfxp/base.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index f4338e1..a54db8b 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -496,11 +496,13 @@ class DFXPWriter(BaseWriter):
 
     def _recreate_text(self, caption, dfxp, caption_set=None, lang=None):
         line = ''
+        span_layout = None
         self.open_span = False
 
         for node in caption.nodes:
             if node.type_ == CaptionNode.TEXT:
-                line += self._encode(node.content)
+                line += self._recreate_text_node(
+                    node, span_layout, caption_set, caption, lang)
 
             elif node.type_ == CaptionNode.BREAK:
                 line = line.rstrip() + '<br/>\n    '
@@ -508,9 +510,33 @@ class DFXPWriter(BaseWriter):
             elif node.type_ == CaptionNode.STYLE:
                 line = self._recreate_span(
                     line, node, dfxp, caption_set, caption, lang)
+                if node.start and self.open_span:
+                    span_layout = node.layout_info
+                elif not self.open_span:
+                    span_layout = None
 
         return line.rstrip()
 
+    def _recreate_text_node(self, node, span_layout, caption_set, caption,
+                            lang):
+        """The text of a node, in a span of its own if it is not placed where
+        the elements around it are
+        """
+        text = self._encode(node.content)
+        layout = span_layout or caption.layout_info
+        if node.layout_info and text.strip() and node.layout_info != layout:
+            region_id, region_attribs = (
+                self.region_creator.get_positioning_info(
+                    lang, caption_set, caption, node
+                ))
+            attributes = {'region': region_id}
+            if self.write_inline_positioning:
+                attributes.update(region_attribs)
+            tag = ''.join(f' {attribute}={encode_attribute(value)}'
+                          for attribute, value in attributes.items())
+            text = f'<span{tag}>{text}</span>'
+        return text
+
     def _recreate_span(self, line, node, dfxp, caption_set=None, caption=None,
                        lang=None):
         # TODO - This method seriously has to go away!
-- 
2.43.0


From 433d7da0aa82849462a41e7a592d83312888bd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:28 +0000
Subject: [PATCH 42/64] fix: DFXP: spans are placed where their texts are,
 without nesting

---
 pycaption/dfxp/base.py | 114 ++++++++++++++++++++++++++---------------
 1 file changed, 72 insertions(+), 42 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index a54db8b..89635c1 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -360,6 +360,11 @@ class DFXPWriter(BaseWriter):
             'write_inline_positioning', False)
         self.p_style = False
         self.open_span = False
+        # The open span: its node, its attributes other than the position, and
+        # where it is placed
+        self.span_node = None
+        self.span_attributes = {}
+        self.span_layout = None
         self.region_creator = None
         super().__init__(*args, **kwargs)
 
@@ -496,74 +501,99 @@ class DFXPWriter(BaseWriter):
 
     def _recreate_text(self, caption, dfxp, caption_set=None, lang=None):
         line = ''
-        span_layout = None
         self.open_span = False
+        self.span_layout = None
 
-        for node in caption.nodes:
+        for i, node in enumerate(caption.nodes):
             if node.type_ == CaptionNode.TEXT:
-                line += self._recreate_text_node(
-                    node, span_layout, caption_set, caption, lang)
+                line = self._recreate_text_node(
+                    line, node, caption_set, caption, lang)
 
             elif node.type_ == CaptionNode.BREAK:
                 line = line.rstrip() + '<br/>\n    '
 
             elif node.type_ == CaptionNode.STYLE:
                 line = self._recreate_span(
-                    line, node, dfxp, caption_set, caption, lang)
-                if node.start and self.open_span:
-                    span_layout = node.layout_info
-                elif not self.open_span:
-                    span_layout = None
+                    line, node, dfxp, caption_set, caption, lang,
+                    self._get_first_text_node(caption.nodes[i + 1:]))
+                if not self.open_span:
+                    self.span_layout = None
 
         return line.rstrip()
 
-    def _recreate_text_node(self, node, span_layout, caption_set, caption,
-                            lang):
-        """The text of a node, in a span of its own if it is not placed where
-        the elements around it are
+    @staticmethod
+    def _get_first_text_node(nodes):
+        """The first text there is before the next style node"""
+        for node in nodes:
+            if node.type_ == CaptionNode.STYLE:
+                return None
+            if node.type_ == CaptionNode.TEXT and node.content.strip():
+                return node
+
+    def _recreate_text_node(self, line, node, caption_set, caption, lang):
+        """A text node that is not placed where the element around it is gets
+        a span of its own. Spans do not nest: it replaces the open one.
         """
         text = self._encode(node.content)
-        layout = span_layout or caption.layout_info
-        if node.layout_info and text.strip() and node.layout_info != layout:
-            region_id, region_attribs = (
-                self.region_creator.get_positioning_info(
-                    lang, caption_set, caption, node
-                ))
-            attributes = {'region': region_id}
-            if self.write_inline_positioning:
-                attributes.update(region_attribs)
-            tag = ''.join(f' {attribute}={encode_attribute(value)}'
-                          for attribute, value in attributes.items())
-            text = f'<span{tag}>{text}</span>'
-        return text
+        layout = node.layout_info or (
+            self.span_node.layout_info if self.open_span else None)
+        if not text.strip() or (layout or caption.layout_info) == (
+                self.span_layout or caption.layout_info):
+            return line + text
+
+        attributes = dict(self.span_attributes) if self.open_span else {}
+        if layout:
+            attributes.update(self._get_region_attributes(
+                layout_node=node if node.layout_info else self.span_node,
+                caption_set=caption_set, caption=caption, lang=lang))
+
+        start_tag = self._get_span_tag(attributes)
+        if not self.open_span:
+            return f'{line}{start_tag}{text}</span>'
+
+        self.span_layout = layout
+        return f'{line}</span>{start_tag}{text}'
+
+    def _get_region_attributes(self, layout_node, caption_set, caption, lang):
+        region_id, region_attribs = self.region_creator.get_positioning_info(
+            lang, caption_set, caption, layout_node)
+        attributes = {'region': region_id}
+        if self.write_inline_positioning:
+            attributes.update(region_attribs)
+        return attributes
+
+    @staticmethod
+    def _get_span_tag(attributes):
+        return '<span' + ''.join(
+            f' {attribute}={encode_attribute(value)}'
+            for attribute, value in attributes.items()) + '>'
 
     def _recreate_span(self, line, node, dfxp, caption_set=None, caption=None,
-                       lang=None):
+                       lang=None, first_text=None):
         # TODO - This method seriously has to go away!
         # Because of the CaptionNode.STYLE nodes, tree-like structures are
         # are really hard to build, and proper xml elements can't be added.
         # We are left with creating tags manually, which is hard to understand
         # and harder to maintain
         if node.start:
-            styles = ''
-
             attributes = _recreate_style(node.content, dfxp)
-            if node.layout_info:
-                region_id, region_attribs = (
-                    self.region_creator.get_positioning_info(
-                        lang, caption_set, caption, node
-                    ))
-                attributes['region'] = region_id
-                if self.write_inline_positioning:
-                    attributes.update(region_attribs)
-            for attribute, value in attributes.items():
-                styles += f' {attribute}={encode_attribute(value)}'
-
-            if styles:
+            style_attributes = dict(attributes)
+            # A span is placed where its text is
+            layout_node = node
+            if first_text and first_text.layout_info:
+                layout_node = first_text
+            if layout_node.layout_info and (attributes or node.layout_info):
+                attributes.update(self._get_region_attributes(
+                    layout_node, caption_set, caption, lang))
+
+            if attributes:
                 if self.open_span:
                     line += '</span>'
-                line += f'<span{styles}>'
+                line += self._get_span_tag(attributes)
                 self.open_span = True
+                self.span_node = node
+                self.span_attributes = style_attributes
+                self.span_layout = layout_node.layout_info
 
         elif self.open_span:
             line += '</span>'
-- 
2.43.0


From 25b62a3f376f7841572073cacd6e4f9b9286113e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:41 +0000
Subject: [PATCH 43/64] fix: SAMI: the style of a language carries the
 language's margins

---
 pycaption/sami.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index dd63341..6edfaff 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -567,8 +567,12 @@ class SAMIWriter(BaseWriter):
             if value != {}:
                 # There are no references between styles in CSS
                 flags = self._resolve_flags(value, caption_set)
+                # The style of a language is where its layout comes from
+                layout_info = (
+                    caption_set.get_layout_info(value.get('lang'))
+                    or caption_set.layout_info)
                 stylesheet += self._recreate_style_block(
-                    attr, {**value, **flags}, caption_set.layout_info)
+                    attr, {**value, **flags}, layout_info)
 
         for lang in caption_set.get_languages():
             undeclared_class = (
-- 
2.43.0


From d2e9f7395c0da892ed3f5fd5b84b77da5be43880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:00 +0000
Subject: [PATCH 44/64] fix: retime captions listed more than once in a set
 only once

---
 pycaption/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycaption/base.py b/pycaption/base.py
index 1fa7789..717f96d 100644
--- a/pycaption/base.py
+++ b/pycaption/base.py
@@ -1,5 +1,6 @@
 import os
 from collections import defaultdict
+from copy import copy
 from datetime import timedelta
 from numbers import Number
 
@@ -371,6 +372,8 @@ class CaptionSet:
             captions = self.get_captions(lang)
             out_captions = CaptionList()
             for caption in captions:
+                # The same caption may also be listed elsewhere in the set
+                caption = copy(caption)
                 caption.start = caption.start * rate_skew + offset
                 caption.end = caption.end * rate_skew + offset
                 if caption.start >= 0:
-- 
2.43.0


From ed0281c2d3e196d6b3a0162eaa65aeca7cd80917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 45/64] fix: let SRT detection cope with documents of one line

---
 pycaption/srt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/srt.py b/pycaption/srt.py
index 6b178cf..46b1b83 100644
--- a/pycaption/srt.py
+++ b/pycaption/srt.py
@@ -10,7 +10,7 @@ from .utils import split_lines
 class SRTReader(BaseReader):
     def detect(self, content):
         lines = split_lines(content)
-        if lines[0].isdigit() and '-->' in lines[1]:
+        if len(lines) > 1 and lines[0].isdigit() and '-->' in lines[1]:
             return True
         else:
             return False
-- 
2.43.0


From c5efceb9e8e73795902815c728ca6cbd0d282835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 46/64] fix: start SRT documents with a cue where the first
 language has none

---
 pycaption/srt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycaption/srt.py b/pycaption/srt.py
index 46b1b83..b8f2d72 100644
--- a/pycaption/srt.py
+++ b/pycaption/srt.py
@@ -90,9 +90,9 @@ class SRTWriter(BaseWriter):
         srt_captions = []
 
         for lang in caption_set.get_languages():
-            srt_captions.append(
-                self._recreate_lang(caption_set.get_captions(lang))
-            )
+            captions = caption_set.get_captions(lang)
+            if captions:
+                srt_captions.append(self._recreate_lang(captions))
 
         caption_content = 'MULTI-LANGUAGE SRT\n'.join(srt_captions)
         return caption_content
-- 
2.43.0


From 3099acd63519b7ee2fb7206248adf1817dc54f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:48 +0000
Subject: [PATCH 47/64] fix: transmit the first caption of SCC documents ahead
 of its start, too

---
 pycaption/scc/__init__.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index 5846f55..53afd6f 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -563,12 +563,11 @@ class SCCWriter(BaseWriter):
             code_words = len(code) / 5 + 8
             code_time_microseconds = code_words * MICROSECONDS_PER_CODEWORD
             code_start = start - code_time_microseconds
-            if index == 0:
-                continue
-            previous_code, previous_start, previous_end = codes[index - 1]
-            if previous_end + 3 * MICROSECONDS_PER_CODEWORD >= code_start:
-                codes[index - 1] = (previous_code, previous_start, None)
-            codes[index] = (code, code_start, end)
+            if index > 0:
+                previous_code, previous_start, previous_end = codes[index - 1]
+                if previous_end + 3 * MICROSECONDS_PER_CODEWORD >= code_start:
+                    codes[index - 1] = (previous_code, previous_start, None)
+            codes[index] = (code, max(code_start, 0), end)
 
         # PASS 3:
         # Write captions.
-- 
2.43.0


From 930a0349164c615c03e2c7a90e571f8968a95275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:47 +0000
Subject: [PATCH 48/64] fix: accept no line break after a size, nor digits
 other than 0 to 9

---
 pycaption/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycaption/geometry.py b/pycaption/geometry.py
index f5cc8b0..aea9da6 100644
--- a/pycaption/geometry.py
+++ b/pycaption/geometry.py
@@ -504,8 +504,8 @@ class Size:
         """
         size_pattern = re.compile(
             r"^(((?P<value>\d+(\.\d+)?)(?P<unit>"
-            fr"{'|'.join([unit.value for unit in UnitEnum])}))|0)$")
-        match = size_pattern.search(string)
+            fr"{'|'.join([unit.value for unit in UnitEnum])}))|0)$", re.ASCII)
+        match = size_pattern.fullmatch(string)
         if not match:
             raise CaptionReadSyntaxError(
                 f"Invalid size: {string}. Please make sure the provided value "
-- 
2.43.0


From 86d568bc332519d98d6228f40b6bd4dd8ba3063a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:30 +0000
Subject: [PATCH 49/64] fix: SCCReader.read forgets the documents read before

---
 pycaption/scc/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index 53afd6f..1f8ea8f 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -170,6 +170,10 @@ class SCCReader(BaseReader):
     """
 
     def __init__(self, *args, **kw):
+        self._reset()
+
+    def _reset(self):
+        """Forgets everything about the documents read so far"""
         self.caption_stash = CaptionCreator()
         self.time_translator = _SccTimeTranslator()
 
@@ -233,6 +237,7 @@ class SCCReader(BaseReader):
         if not isinstance(content, str):
             raise InvalidInputError("The content is not a unicode string.")
 
+        self._reset()
         self.simulate_roll_up = simulate_roll_up
         self.time_translator.offset = offset * 1000000
         # split lines
-- 
2.43.0


From 3d8f52c9000afeadb3d3989cfed3caa6b5303e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:33 +0000
Subject: [PATCH 50/64] fix: captions and caption sets do not share a default
 style dict

---
 pycaption/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycaption/base.py b/pycaption/base.py
index 717f96d..ad201da 100644
--- a/pycaption/base.py
+++ b/pycaption/base.py
@@ -176,7 +176,7 @@ class Caption:
     for its display.
     """
 
-    def __init__(self, start, end, nodes, style={}, layout_info=None):
+    def __init__(self, start, end, nodes, style=None, layout_info=None):
         """
         Initialize the Caption object
         :param start: The start time in microseconds
@@ -204,7 +204,7 @@ class Caption:
         self.start = start
         self.end = end
         self.nodes = nodes
-        self.style = style
+        self.style = {} if style is None else style
         self.layout_info = layout_info
 
     def is_empty(self):
@@ -307,14 +307,14 @@ class CaptionSet:
     by all the children.
     """
 
-    def __init__(self, captions, styles={}, layout_info=None):
+    def __init__(self, captions, styles=None, layout_info=None):
         """
         :param captions: A dictionary of the format {'language': CaptionList}
         :param styles: A dictionary with CSS-like styling rules
         :param Layout layout_info: A Layout object with the positioning info
         """
         self._captions = captions
-        self._styles = styles
+        self._styles = {} if styles is None else styles
         self.layout_info = layout_info
 
     def set_captions(self, lang, captions):
-- 
2.43.0


From 89bed79c16151594c99dda5b29acfd5a94740404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:00 +0000
Subject: [PATCH 51/64] fix: preambles of column 24 and green ones of rows 6, 8
 and 13 end italics

---
 pycaption/scc/constants.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pycaption/scc/constants.py b/pycaption/scc/constants.py
index e8a9f39..1e9023b 100644
--- a/pycaption/scc/constants.py
+++ b/pycaption/scc/constants.py
@@ -1134,6 +1134,7 @@ COMMAND_LABELS = {
     "9179": "row 02, column 16, with white underlined text.",
     "917a": "row 02, column 20, with plain white text.",
     "91fb": "row 02, column 20, with white underlined text.",
+    "917c": "row 02, column 24, with plain white text.",
     "91fc": "row 02, column 24, with plain white text.",
     "91fd": "row 02, column 24, with white underlined text.",
     "91fe": "row 02, column 28, with plain white text.",
@@ -1198,6 +1199,7 @@ COMMAND_LABELS = {
     "9279": "row 04, column 16, with white underlined text.",
     "927a": "row 04, column 20, with plain white text.",
     "92fb": "row 04, column 20, with white underlined text.",
+    "927c": "row 04, column 24, with plain white text.",
     "92fc": "row 04, column 24, with plain white text.",
     "92fd": "row 04, column 24, with white underlined text.",
     "92fe": "row 04, column 28, with plain white text.",
@@ -1236,7 +1238,7 @@ COMMAND_LABELS = {
     "15df": "row 05, column 28, with white underlined text.",
     "15e0": "row 06, column 00, with plain white text.",
     "1561": "row 06, column 00, with white underlined text.",
-    "15462": "row 06, column 00, with plain green text.",
+    "1562": "row 06, column 00, with plain green text.",
     "15e3": "row 06, column 00, with green underlined text.",
     "1564": "row 06, column 00, with plain blue text.",
     "15e5": "row 06, column 00, with blue underlined text.",
@@ -1262,6 +1264,7 @@ COMMAND_LABELS = {
     "1579": "row 06, column 16, with white underlined text.",
     "157a": "row 06, column 20, with plain white text.",
     "15fb": "row 06, column 20, with white underlined text.",
+    "157c": "row 06, column 24, with plain white text.",
     "15fc": "row 06, column 24, with plain white text.",
     "15fd": "row 06, column 24, with white underlined text.",
     "15fe": "row 06, column 28, with plain white text.",
@@ -1300,7 +1303,7 @@ COMMAND_LABELS = {
     "16df": "row 07, column 28, with white underlined text.",
     "16e0": "row 08, column 00, with plain white text.",
     "1661": "row 08, column 00, with white underlined text.",
-    "16462": "row 08, column 00, with plain green text.",
+    "1662": "row 08, column 00, with plain green text.",
     "16e3": "row 08, column 00, with green underlined text.",
     "1664": "row 08, column 00, with plain blue text.",
     "16e5": "row 08, column 00, with blue underlined text.",
@@ -1326,6 +1329,7 @@ COMMAND_LABELS = {
     "1679": "row 08, column 16, with white underlined text.",
     "167a": "row 08, column 20, with plain white text.",
     "16fb": "row 08, column 20, with white underlined text.",
+    "167c": "row 08, column 24, with plain white text.",
     "16fc": "row 08, column 24, with plain white text.",
     "16fd": "row 08, column 24, with white underlined text.",
     "16fe": "row 08, column 28, with plain white text.",
@@ -1390,6 +1394,7 @@ COMMAND_LABELS = {
     "9779": "row 10, column 16, with white underlined text.",
     "977a": "row 10, column 20, with plain white text.",
     "97fb": "row 10, column 20, with white underlined text.",
+    "977c": "row 10, column 24, with plain white text.",
     "97fc": "row 10, column 24, with plain white text.",
     "97fd": "row 10, column 24, with white underlined text.",
     "97fe": "row 10, column 28, with plain white text.",
@@ -1460,7 +1465,7 @@ COMMAND_LABELS = {
     "13df": "row 12, column 28, with white underlined text.",
     "13e0": "row 13, column 00, with plain white text.",
     "1361": "row 13, column 00, with white underlined text.",
-    "13462": "row 13, column 00, with plain green text.",
+    "1362": "row 13, column 00, with plain green text.",
     "13e3": "row 13, column 00, with green underlined text.",
     "1364": "row 13, column 00, with plain blue text.",
     "13e5": "row 13, column 00, with blue underlined text.",
@@ -1486,6 +1491,7 @@ COMMAND_LABELS = {
     "1379": "row 13, column 16, with white underlined text.",
     "137a": "row 13, column 20, with plain white text.",
     "13fb": "row 13, column 20, with white underlined text.",
+    "137c": "row 13, column 24, with plain white text.",
     "13fc": "row 13, column 24, with plain white text.",
     "13fd": "row 13, column 24, with white underlined text.",
     "13fe": "row 13, column 28, with plain white text.",
@@ -1550,6 +1556,7 @@ COMMAND_LABELS = {
     "9479": "row 15, column 16, with white underlined text.",
     "947a": "row 15, column 20, with plain white text.",
     "94fb": "row 15, column 20, with white underlined text.",
+    "947c": "row 15, column 24, with plain white text.",
     "94fc": "row 15, column 24, with plain white text.",
     "94fd": "row 15, column 24, with white underlined text.",
     "94fe": "row 15, column 28, with plain white text.",
-- 
2.43.0


From e5172683f1493ac3df18eafda8b96b4696642e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:42 +0000
Subject: [PATCH 52/64] fix: the first position of a caption is no change of
 position

---
 pycaption/scc/specialized_collections.py | 3 +++
 pycaption/scc/state_machines.py          | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/pycaption/scc/specialized_collections.py b/pycaption/scc/specialized_collections.py
index 1bd5bf9..75d91a6 100644
--- a/pycaption/scc/specialized_collections.py
+++ b/pycaption/scc/specialized_collections.py
@@ -488,6 +488,9 @@ class InstructionNodeCreator:
         offset_after_break = is_offset and self.has_break_before(self._collection)
         if not offset_after_break:
             # Tab offsets after line breaks will be ignored to avoid repositioning
+            if self.is_empty():
+                # the position of the first text is not a change of position
+                self._position_tracer.reset()
             self._position_tracer.update_positioning(positioning)
 
     def __iter__(self):
diff --git a/pycaption/scc/state_machines.py b/pycaption/scc/state_machines.py
index de5a4e8..b8723ba 100644
--- a/pycaption/scc/state_machines.py
+++ b/pycaption/scc/state_machines.py
@@ -59,6 +59,15 @@ class _PositioningTracker:
             if not is_tab_offset:
                 self._repositioning_required = True
 
+    def reset(self):
+        """Forgets the position changes received so far, which positioned
+        no text, or text that was already displayed
+        """
+        self._positions = [None]
+        self._break_required = False
+        self._repositioning_required = False
+        self._last_column = None
+
     def get_current_position(self):
         """Returns the current usable position
 
-- 
2.43.0


From c69bb5170fd49cd9fd709b35028a6e28a880247a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:58 +0000
Subject: [PATCH 53/64] fix: a mid-row code before the text of another position
 adds no space to the text before

---
 pycaption/scc/specialized_collections.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycaption/scc/specialized_collections.py b/pycaption/scc/specialized_collections.py
index 75d91a6..b2a15de 100644
--- a/pycaption/scc/specialized_collections.py
+++ b/pycaption/scc/specialized_collections.py
@@ -452,6 +452,7 @@ class InstructionNodeCreator:
             command in MID_ROW_CODES
             and prev_text_node
             and not prev_node_is_break
+            and not self._position_tracer.is_repositioning_required()
             and not prev_text_node.text[-1].isspace()
             and command not in PAC_TAB_OFFSET_COMMANDS
             and not next_is_punctuation
-- 
2.43.0


From 12f05c7b731f69b5011811499fd6e3d1b27ca996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:00 +0000
Subject: [PATCH 54/64] fix: decode the solid block character

---
 pycaption/scc/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/scc/constants.py b/pycaption/scc/constants.py
index 1e9023b..6c405dc 100644
--- a/pycaption/scc/constants.py
+++ b/pycaption/scc/constants.py
@@ -641,7 +641,7 @@ CHARACTERS = {
     '7c': '÷',
     'fd': 'Ñ',
     'fe': 'ñ',
-    '7f': '',
+    '7f': '█',
     '80': ''
 }
 
-- 
2.43.0


From 2ffe19547ec034d17d89edc917b48c8383b5e269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:43 +0000
Subject: [PATCH 55/64] fix: padding after a preamble does not take the text's
 position

---
 pycaption/scc/specialized_collections.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycaption/scc/specialized_collections.py b/pycaption/scc/specialized_collections.py
index b2a15de..4730b38 100644
--- a/pycaption/scc/specialized_collections.py
+++ b/pycaption/scc/specialized_collections.py
@@ -323,7 +323,8 @@ class InstructionNodeCreator:
 
         :param chars: tuple containing text (Unicode string)
         """
-        if not chars:
+        if not any(chars):
+            # nothing to add, or just padding
             return
 
         current_position = self._position_tracer.get_current_position()
-- 
2.43.0


From a3de7f906fbfb58ca98c4ff32c4bcb8daafd5a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:12 +0000
Subject: [PATCH 56/64] fix: name every SCC line over 32 characters, also of
 captions sharing a start time

---
 pycaption/scc/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index 1f8ea8f..b1c7163 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -259,10 +259,7 @@ class SCCReader(BaseReader):
             text_too_long = [
                 line for line in caption_text.split("\n") if len(line) > 32
             ]
-            if caption_start in lines_too_long:
-                lines_too_long[caption_start] = text_too_long
-            else:
-                lines_too_long[caption_start].extend(text_too_long)
+            lines_too_long[caption_start].extend(text_too_long)
 
         msg = ""
         if bool(lines_too_long.keys()):
-- 
2.43.0


From 7ade1deb46023b4c3183db50e050ee7da29bdfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:46 +0000
Subject: [PATCH 57/64] fix: break SCC lines at spaces only, not after hyphens

---
 pycaption/scc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index b1c7163..2c0536b 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -588,7 +588,7 @@ class SCCWriter(BaseWriter):
     def _layout_line(caption):
         caption_text = "".join(caption.get_text_nodes())
         inner_lines = caption_text.split("\n")
-        inner_lines_laid_out = [textwrap.fill(x, 32) for x in inner_lines]
+        inner_lines_laid_out = [textwrap.fill(x, 32, break_on_hyphens=False) for x in inner_lines]
         return "\n".join(inner_lines_laid_out)
 
     @staticmethod
-- 
2.43.0


From b4aa8a2dc5906b2b3972b1fd77516a03d5068855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:59 +0000
Subject: [PATCH 58/64] fix: a code that ends an SCC line is not the first copy
 of one that begins the next

---
 pycaption/scc/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index 2c0536b..3516545 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -327,6 +327,9 @@ class SCCReader(BaseReader):
         parts = r.findall(line.lower())
 
         self.time_translator.start_at(parts[0][0])
+        # a code at the end of the line before is not the first of a pair
+        if not _is_pac_command(self.last_command[:4]):
+            self.last_command = ""
         word_list = parts[0][2].split(" ")
 
         for idx, word in enumerate(word_list):
-- 
2.43.0


From fbed86181a563553ab857f7bc706e1d185d358eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:05 +0000
Subject: [PATCH 59/64] fix: a rolled-up SCC row lasts until the next row
 begins

---
 pycaption/scc/__init__.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index 3516545..d3f0bb8 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -198,6 +198,9 @@ class SCCReader(BaseReader):
 
         self.roll_rows = []
         self.roll_rows_expected = 0
+
+        # whether the last caption stored is a row that was rolled up
+        self.rolled_up = False
         self.simulate_roll_up = False
 
         self.time = 0
@@ -314,6 +317,7 @@ class SCCReader(BaseReader):
 
         elif old_key == "paint":
             if not self.buffer.is_empty():
+                self.rolled_up = False
                 self.caption_stash.create_and_store(self.buffer, self.time)
                 self.buffer = self.node_creator_factory.new_creator()
 
@@ -431,8 +435,10 @@ class SCCReader(BaseReader):
             if not self.buffer.is_empty():
                 self.caption_stash.create_and_store(self.buffer, self.time)
                 self.buffer = self.node_creator_factory.new_creator()
+                self.rolled_up = False
 
             self.time = self.time_translator.get_time()
+            self._extend_rolled_up()
 
         # if command is roll_up 2, 3 or 4 rows
         elif word in ("9425", "9426", "94a7"):
@@ -450,10 +456,12 @@ class SCCReader(BaseReader):
             if not self.buffer.is_empty():
                 self.caption_stash.create_and_store(self.buffer, self.time)
                 self.buffer = self.node_creator_factory.new_creator()
+                self.rolled_up = False
 
             # set rows to empty, configure start time for caption
             self.roll_rows = []
             self.time = self.time_translator.get_time()
+            self._extend_rolled_up()
 
         # clear pop_on buffer
         elif word == "94ae":
@@ -533,8 +541,15 @@ class SCCReader(BaseReader):
 
         # try to insert the proper ending time for the previous caption
         self.caption_stash.correct_last_timing(self.time, force=True)
+        self.rolled_up = True
+
+    def _extend_rolled_up(self):
+        """The last row rolled up stays on display until the next one begins"""
+        if self.rolled_up:
+            self.caption_stash.correct_last_timing(self.time, force=True)
 
     def _pop_on(self, end=0):
+        self.rolled_up = False
         pop_on_cue = self.pop_ons_queue.pop()
         self.caption_stash.create_and_store(pop_on_cue.buffer, pop_on_cue.start, end)
 
-- 
2.43.0


From 715cd88015d0fb386a5ed2c49fdf4e292ca91e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:57 +0000
Subject: [PATCH 60/64] fix: DFXP paragraphs after a nested div keep their
 place in the document

---
 pycaption/dfxp/base.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 89635c1..f612c83 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -140,14 +140,15 @@ class DFXPReader(BaseReader):
 
         # Each div represents captions for a single language. Several divs,
         # possibly nested, may contribute to the same language.
-        for div in dfxp_document.find_all('div'):
+        for tag in dfxp_document.find_all(['div', 'p']):
+            div = tag if tag.name == 'div' else tag.find_parent('div')
+            if div is None:
+                continue
             lang = div.attrs.get('xml:lang', default_language)
-
-            captions = self._convert_div_to_caption_list(div)
-            if lang in caption_dict:
-                caption_dict[lang].extend(captions)
-            else:
-                caption_dict[lang] = captions
+            captions = caption_dict.setdefault(
+                lang, CaptionList(layout_info=div.layout_info))
+            if tag.name == 'p' and tag.get_text().strip():
+                captions.append(self._convert_p_tag_to_caption(tag))
 
         for style in dfxp_document.find_all('style'):
             id_ = style.attrs.get('xml:id') or style.attrs.get('id')
@@ -170,14 +171,6 @@ class DFXPReader(BaseReader):
         """Hook method for providing a custom DFXP parser"""
         return LayoutAwareDFXPParser
 
-    def _convert_div_to_caption_list(self, div):
-        return CaptionList(
-            [self._convert_p_tag_to_caption(p_tag)
-             for p_tag in div.find_all('p')
-             if p_tag.find_parent('div') is div and p_tag.get_text().strip()],
-            div.layout_info
-        )
-
     def _convert_p_tag_to_caption(self, p_tag):
         start, end = self._find_and_convert_times(p_tag)
         self.nodes = []
-- 
2.43.0


From 984838984b7ee047cb3f5d9c6109bbc76220a19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:08 +0000
Subject: [PATCH 61/64] fix: read DFXP documents whose elements have a
 namespace prefix

---
 pycaption/dfxp/base.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index f612c83..b03f787 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -656,9 +656,21 @@ class LayoutAwareDFXPParser(BeautifulSoup):
 
         self.read_invalid_positioning = read_invalid_positioning
 
+        self._strip_namespace_prefix()
         for div in self.find_all('div'):
             self._pre_order_visit(div)
 
+    def _strip_namespace_prefix(self):
+        """Elements may be written with a prefix bound to the TTML namespace
+        (e.g. <tt:p>). Leave only their local names.
+        """
+        root = self.find(re.compile('^([^:]+:)?tt$'))
+        if root is None or ':' not in root.name:
+            return
+        prefix = root.name[:-len('tt')]
+        for tag in self.find_all(lambda tag: tag.name.startswith(prefix)):
+            tag.name = tag.name[len(prefix):]
+
     def _pre_order_visit(self, element, inherit_from=None):
         """Process the xml tree elements in pre order by adding a .layout_info
         attribute to each of them.
-- 
2.43.0


From ac1f120cbf4d15df1096d4ef074a2d24fdde8ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:17 +0000
Subject: [PATCH 62/64] fix: metadata inside DFXP paragraphs is no caption text

---
 pycaption/dfxp/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index b03f787..9481cdf 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -657,6 +657,10 @@ class LayoutAwareDFXPParser(BeautifulSoup):
         self.read_invalid_positioning = read_invalid_positioning
 
         self._strip_namespace_prefix()
+        # Neither metadata nor elements of other namespaces are displayed
+        for p_tag in self.find_all('p'):
+            for tag in p_tag.find_all(re.compile('^metadata$|:')):
+                tag.extract()
         for div in self.find_all('div'):
             self._pre_order_visit(div)
 
-- 
2.43.0


From f04d22e47c77732cddc59c9d14b43e2255d45ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:06 +0000
Subject: [PATCH 63/64] fix: SAMI reader failed on comments and at-rules in the
 style sheet

---
 pycaption/sami.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 6edfaff..452a8dd 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -840,6 +840,9 @@ class SAMIParser(HTMLParser):
         style_sheet = {}
 
         for rule in sheet:
+            # comments and at-rules have no selector
+            if rule.type != rule.STYLE_RULE:
+                continue
             new_style = {}
             selector = rule.selectorText.lower()
             if selector[0] in ['#', '.']:
-- 
2.43.0


From 4820e2a52089dd0a7c35c23c8ae0ffb286723322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:06 +0000
Subject: [PATCH 64/64] fix: SAMI reader lost rules for several selectors and
 earlier rules for the same one

---
 pycaption/sami.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 452a8dd..5023a76 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -844,9 +844,6 @@ class SAMIParser(HTMLParser):
             if rule.type != rule.STYLE_RULE:
                 continue
             new_style = {}
-            selector = rule.selectorText.lower()
-            if selector[0] in ['#', '.']:
-                selector = selector[1:]
             # keep any style attributes that are needed
             for prop in rule.style:
                 if prop.name == 'color':
@@ -864,7 +861,11 @@ class SAMIParser(HTMLParser):
                 else:
                     new_style[prop.name] = prop.value
             if new_style:
-                style_sheet[selector] = new_style
+                for selector in rule.selectorText.lower().split(','):
+                    selector = selector.strip()
+                    if selector[0] in ['#', '.']:
+                        selector = selector[1:]
+                    style_sheet.setdefault(selector, {}).update(new_style)
 
         return style_sheet
 
-- 
2.43.0

