From e2b24486f1689ca8d60eb383629dc5ee806d1a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:31 +0000
Subject: [PATCH 01/64] fix: DFXP reader: scale clock fractions of any length,
 convert offset times exactly

---
 pycaption/dfxp/base.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index bef0586..e4e8686 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -1,5 +1,6 @@
 import re
 from copy import deepcopy
+from fractions import Fraction
 from xml.sax.saxutils import escape
 
 from bs4 import BeautifulSoup, NavigableString
@@ -189,16 +190,18 @@ class DFXPReader(BaseReader):
         microseconds += int(clock_time_match.group('seconds')) * \
                         MICROSECONDS_PER_UNIT["seconds"]
         if clock_time_match.group('sub_frames'):
-            microseconds += int(clock_time_match.group('sub_frames').ljust(
-                3, '0')) * MICROSECONDS_PER_UNIT["milliseconds"]
+            # decimal fraction of a second, of any length
+            microseconds += int(
+                clock_time_match.group('sub_frames')[:6].ljust(6, '0'))
         elif clock_time_match.group('frames'):
-            microseconds += int(clock_time_match.group('frames')) / 30 * \
-                            MICROSECONDS_PER_UNIT["seconds"]
-        return int(microseconds)
+            microseconds += int(clock_time_match.group('frames')) * \
+                            MICROSECONDS_PER_UNIT["seconds"] // 30
+        return microseconds
 
     @staticmethod
     def _convert_time_count_to_microseconds(time_count_match):
-        value = float(time_count_match.group('time_count'))
+        # exact arithmetic: floats could be off by one microsecond
+        value = Fraction(time_count_match.group('time_count'))
         metric = time_count_match.group("metric")
         if metric == "h":
             microseconds = value * MICROSECONDS_PER_UNIT["hours"]
-- 
2.43.0


From 03420623b0aa144294b666f13de0bd32b463c60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:40 +0000
Subject: [PATCH 02/64] fix: MicroDVD reader: convert frame numbers to
 microseconds exactly

---
 pycaption/microdvd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycaption/microdvd.py b/pycaption/microdvd.py
index 6c31ca1..fdd2b46 100644
--- a/pycaption/microdvd.py
+++ b/pycaption/microdvd.py
@@ -1,5 +1,6 @@
 import re
 from copy import deepcopy
+from fractions import Fraction
 
 from .base import (
     BaseReader, BaseWriter, CaptionSet, CaptionList, Caption, CaptionNode,
@@ -67,7 +68,8 @@ class MicroDVDReader(BaseReader):
         return caption_set
 
     def _framestomicro(self, framenum, fps=25.0):
-        return int(framenum / fps * (10 ** 6))
+        # exact arithmetic: floats could be off by one microsecond
+        return int(framenum * (10 ** 6) / Fraction(str(fps)))
 
 
 class MicroDVDWriter(BaseWriter):
-- 
2.43.0


From fe7f65248fafecb603e38b46f579b0d5e2fd552e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:24 +0000
Subject: [PATCH 03/64] fix: WebVTT reader: a blank line ends a cue that has no
 text

---
 pycaption/webvtt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index c3573b2..83dad26 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -93,10 +93,11 @@ class WebVTTReader(BaseReader):
 
             elif "" == line:
                 if found_timing and nodes:
-                    found_timing = False
                     caption = Caption(start, end, nodes, layout_info=layout_info)
                     captions.append(caption)
                     nodes = []
+                # a blank line ends the cue even if the cue has no text
+                found_timing = False
             else:
                 if found_timing:
                     if nodes:
-- 
2.43.0


From 4847e0ce3600d9fd8639d607910801c705aeb9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:26 +0000
Subject: [PATCH 04/64] fix: DFXP reader: keep the captions of every div of a
 language

---
 pycaption/dfxp/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index e4e8686..c49a790 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -107,7 +107,12 @@ class DFXPReader(BaseReader):
         for div in dfxp_document.find_all('div'):
             lang = div.attrs.get('xml:lang', default_language)
 
-            caption_dict[lang] = self._convert_div_to_caption_list(div)
+            captions = self._convert_div_to_caption_list(div)
+            if lang in caption_dict:
+                # several divs can hold captions of the same language
+                caption_dict[lang].extend(captions)
+            else:
+                caption_dict[lang] = captions
 
         for style in dfxp_document.find_all('style'):
             id_ = style.attrs.get('xml:id') or style.attrs.get('id')
-- 
2.43.0


From 89c3155b7419ab259a495717465672ef55c1d980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:49 +0000
Subject: [PATCH 05/64] fix: SAMI reader: list the languages in order of first
 appearance

---
 pycaption/sami.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index b310bbc..4049620 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -641,7 +641,8 @@ class SAMIParser(HTMLParser):
         self.line = ''
         self.styles = {}
         self.queue = deque()
-        self.langs = set()
+        # in order of first appearance
+        self.langs = []
         self.last_element = ''
         self.name2codepoint = name2codepoint.copy()
         self.name2codepoint['apos'] = 0x0027
@@ -666,7 +667,8 @@ class SAMIParser(HTMLParser):
             # if no language detected, set it as the default
             lang = lang or DEFAULT_LANGUAGE_CODE
             attrs.append(('lang', lang))
-            self.langs.add(lang)
+            if lang not in self.langs:
+                self.langs.append(lang)
 
         # clean-up line breaks
         if tag == 'br':
@@ -725,7 +727,7 @@ class SAMIParser(HTMLParser):
     def feed(self, data):
         """
         :param data: Raw SAMI unicode string
-        :returns: tuple (str, dict, set)
+        :returns: tuple (str, dict, list)
         """
         no_cc = 'no closed captioning available'
 
-- 
2.43.0


From 3349bc08ed8f71891286ca544486c3670abd7525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:51 +0000
Subject: [PATCH 06/64] fix: SAMI reader: do not file the cues of en-US under
 en as well

---
 pycaption/sami.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 4049620..1f3fa76 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -191,7 +191,7 @@ class SAMIReader(BaseReader):
         captions = CaptionList(layout_info=parent_layout)
         milliseconds = 0
 
-        for p in sami_soup.select(f'p[lang|={language}]'):
+        for p in sami_soup.find_all('p', lang=language):
             start_str = p.parent.get('start')
             if not start_str:
                 raise CaptionReadTimingError(
@@ -666,6 +666,7 @@ class SAMIParser(HTMLParser):
 
             # if no language detected, set it as the default
             lang = lang or DEFAULT_LANGUAGE_CODE
+            attrs = [attr for attr in attrs if attr[0] != 'lang']
             attrs.append(('lang', lang))
             if lang not in self.langs:
                 self.langs.append(lang)
-- 
2.43.0


From 72f2af03d1a9e95165617a0279a7867fa90c9574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:53 +0000
Subject: [PATCH 07/64] fix: SAMI reader: end every cue of the last sync, not
 only the last one

---
 pycaption/sami.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 1f3fa76..b66e689 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -230,9 +230,10 @@ class SAMIReader(BaseReader):
                 caption = Caption(start, end, self.line, styles, caption_layout)
                 captions.append(caption)
 
-        if captions and captions[-1].end == 0:
-            # Arbitrarily make this last 4 seconds. Not ideal...
-            captions[-1].end = (milliseconds + 4000) * 1000
+        for caption in captions:
+            if caption.end == 0:
+                # Arbitrarily make this last 4 seconds. Not ideal...
+                caption.end = (milliseconds + 4000) * 1000
 
         return captions
 
-- 
2.43.0


From 5ee924a26c475bddc1440fcbc5357cae533490c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:29 +0000
Subject: [PATCH 08/64] fix: SRT writer: a blank line inside a caption must not
 end its cue

---
 pycaption/srt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycaption/srt.py b/pycaption/srt.py
index 3351bad..ad75b06 100644
--- a/pycaption/srt.py
+++ b/pycaption/srt.py
@@ -133,8 +133,10 @@ class SRTWriter(BaseWriter):
             for node in caption.nodes:
                 new_content = self._recreate_line(new_content, node)
 
-            # Eliminate excessive line breaks
-            new_content = new_content.strip()
+            # Eliminate excessive line breaks: a blank line would end the cue
+            new_content = '\n'.join(
+                line for line in new_content.strip().split('\n')
+                if line.strip())
 
             srt += f"{new_content}\n\n"
             count += 1
-- 
2.43.0


From a240625d924bf07f3fa47db212d2b767c2120fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:31 +0000
Subject: [PATCH 09/64] fix: SRT and legacy DFXP writers: do not insert a space
 between two text nodes of a line

---
 pycaption/dfxp/extras.py | 2 +-
 pycaption/srt.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 70a60c8..50899aa 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -195,7 +195,7 @@ class LegacyDFXPWriter(BaseWriter):
 
         for node in caption.nodes:
             if node.type_ == CaptionNode.TEXT:
-                line += escape(node.content) + ' '
+                line += escape(node.content)
 
             elif node.type_ == CaptionNode.BREAK:
                 line = line.rstrip() + '<br/>\n    '
diff --git a/pycaption/srt.py b/pycaption/srt.py
index ad75b06..ae1712e 100644
--- a/pycaption/srt.py
+++ b/pycaption/srt.py
@@ -145,7 +145,7 @@ class SRTWriter(BaseWriter):
 
     def _recreate_line(self, srt, line):
         if line.type_ == CaptionNode.TEXT:
-            return srt + f'{line.content} '
+            return srt + line.content
         elif line.type_ == CaptionNode.BREAK:
             return srt + '\n'
         else:
-- 
2.43.0


From 933f2c1836a9a822db072f190d456c24b011de29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:33 +0000
Subject: [PATCH 10/64] fix: DFXP writers: closing a span must not add or drop
 spaces around its text

---
 pycaption/dfxp/base.py   | 4 ++--
 pycaption/dfxp/extras.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index c49a790..dd21aca 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -492,12 +492,12 @@ class DFXPWriter(BaseWriter):
 
             if styles:
                 if self.open_span:
-                    line = line.rstrip() + '</span> '
+                    line += '</span>'
                 line += f'<span{styles}>'
                 self.open_span = True
 
         elif self.open_span:
-            line = line.rstrip() + '</span> '
+            line += '</span>'
             self.open_span = False
 
         return line
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 50899aa..2226f0a 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -215,12 +215,12 @@ class LegacyDFXPWriter(BaseWriter):
 
             if styles:
                 if self.open_span:
-                    line = line.rstrip() + '</span> '
+                    line += '</span>'
                 line += f'<span{styles}>'
                 self.open_span = True
 
         elif self.open_span:
-            line = line.rstrip() + '</span> '
+            line += '</span>'
             self.open_span = False
 
         return line
-- 
2.43.0


From 9767e83ae532684f140010110d4a3c85d09ec3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:43 +0000
Subject: [PATCH 11/64] fix: SAMI writer: do not insert spaces between the text
 nodes of a line or after a span

---
 pycaption/sami.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index b66e689..4fdb789 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -567,26 +567,35 @@ class SAMIWriter(BaseWriter):
 
     def _recreate_text(self, caption):
         line = ''
+        # Nested spans are flattened, and their texts set apart by spaces.
+        # Otherwise no space is added or dropped around a text
+        spaced = self._has_nested_spans(caption)
 
         for node in caption:
             if node.type_ == CaptionNode.TEXT:
-                line += self._encode(node.content) + ' '
+                line += self._encode(node.content)
+                if spaced:
+                    line += ' '
             elif node.type_ == CaptionNode.BREAK:
                 line = line.rstrip() + '<br/>\n    '
             elif node.type_ == CaptionNode.STYLE:
-                line = self._recreate_line_style(line, node)
+                line = self._recreate_line_style(line, node, spaced)
 
         return line.rstrip()
 
-    def _recreate_line_style(self, line, node):
+    @staticmethod
+    def _has_nested_spans(nodes):
+        styles = [node for node in nodes if node.type_ == CaptionNode.STYLE]
+        return any(first.start and second.start
+                   for first, second in zip(styles, styles[1:]))
+
+    def _recreate_line_style(self, line, node, spaced=False):
+        if self.open_span:
+            line = line.rstrip() + '</span> ' if spaced else line + '</span>'
+            self.open_span = False
+
         if node.start:
-            if self.open_span:
-                line = line.rstrip() + '</span> '
             line = self._recreate_span(line, node.content)
-        else:
-            if self.open_span:
-                line = line.rstrip() + '</span> '
-                self.open_span = False
 
         return line
 
-- 
2.43.0


From 0801b0a11fcb215de8abd8cc7a1fbd5461e0b559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:44 +0000
Subject: [PATCH 12/64] fix: SAMI writer: integer sync times, and a blank sync
 for a cue that ends at 0

---
 pycaption/sami.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 4fdb789..a2901f3 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -438,13 +438,13 @@ class SAMIWriter(BaseWriter):
 
         :rtype: BeautifulSoup
         """
-        time = caption.start // 1000
+        time = int(caption.start // 1000)
 
-        if self.last_time and time != self.last_time:
+        if self.last_time is not None and time != self.last_time:
             sami = self._recreate_blank_tag(
                 sami, caption, lang, primary, captions)
 
-        self.last_time = caption.end // 1000
+        self.last_time = int(caption.end // 1000)
 
         sami, sync = self._recreate_sync(sami, lang, primary, time)
 
-- 
2.43.0


From 5b289b6064aefc7c140549bcf254c97061aaee83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:55 +0000
Subject: [PATCH 13/64] fix: SAMI writer: write the cues of the other languages
 when the first has none

---
 pycaption/sami.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index a2901f3..ed083b6 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -498,6 +498,8 @@ class SAMIWriter(BaseWriter):
             if later:
                 last_sync = later[0]
                 last_sync.insert_before(sync)
+            else:
+                sami.body.append(sync)
         return sami, sync
 
     def _recreate_blank_tag(self, sami, caption, lang, primary, captions):
-- 
2.43.0


From daea395980a611ddcc285b37f4f4ccdcf603a9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:23 +0000
Subject: [PATCH 14/64] fix: WebVTT writer: separate the cues of a split
 caption by a blank line

---
 pycaption/webvtt.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index 83dad26..5def0a2 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -275,7 +275,7 @@ class WebVTTWriter(BaseWriter):
         end = self._timestamp(caption.end)
         timespan = f"{start} --> {end}"
 
-        output = ""
+        cues = []
 
         cue_style_tags = ["", ""]
 
@@ -291,10 +291,12 @@ class WebVTTWriter(BaseWriter):
             if not layout:
                 layout = caption.layout_info or self.global_layout
             cue_settings = self._convert_positioning(layout)
-            output += timespan + cue_settings + "\n"
+            output = timespan + cue_settings + "\n"
             output += cue_style_tags[0] + cue_text + cue_style_tags[1] + "\n"
+            cues.append(output)
 
-        return output
+        # a blank line is required between two cues
+        return "\n".join(cues)
 
     def _convert_positioning(self, layout):
         """
-- 
2.43.0


From debfe739fd00da4bb68b7b78474fef1af59f61e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:25 +0000
Subject: [PATCH 15/64] fix: WebVTT writer: escape an arrow made of two text
 nodes

---
 pycaption/webvtt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index 5def0a2..806d713 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -444,7 +444,10 @@ class WebVTTWriter(BaseWriter):
 
         if s:
             layout_groups.append((s, current_layout))
-        return layout_groups
+
+        # The illegal "-->" may also come from two consecutive text nodes
+        return [(text.replace("-->", "--&gt;"), layout)
+                for text, layout in layout_groups]
 
     def _encode_illegal_characters(self, s):
         """
-- 
2.43.0


From a21df5b84d448c638bdf5a8f5182b7e3b0990d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:48 +0000
Subject: [PATCH 16/64] fix: WebVTT writer: balanced tags and separate cues
 whenever the layout changes inside a caption

---
 pycaption/webvtt.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index 806d713..e83d510 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -405,13 +405,18 @@ class WebVTTWriter(BaseWriter):
         # A properly encoded WebVTT string (plain unicode must be properly
         # escaped before being appended to this string)
         s = ""
+        found_text = False
+        open_tags = []
         for i, node in enumerate(nodes):
             if node.type_ == CaptionNode.TEXT:
-                if s and current_layout and node.layout_info != current_layout:
+                if found_text and node.layout_info != current_layout:
                     # If the positioning changes from one text node to
-                    # another, a new WebVTT cue has to be created.
+                    # another, a new WebVTT cue has to be created. A tag has
+                    # to be closed in the cue in which it was opened.
+                    s += "".join(tags[1] for tags in reversed(open_tags))
                     layout_groups.append((s, current_layout))
-                    s = ""
+                    s = "".join(tags[0] for tags in open_tags)
+                found_text = True
                 # ATTENTION: This is where the plain unicode node content is
                 # finally encoded as WebVTT.
                 s += self._encode_illegal_characters(node.content) or "&nbsp;"
@@ -430,8 +435,11 @@ class WebVTTWriter(BaseWriter):
                         tags = self._convert_style_to_text_tag(style)
                         if node.start:
                             s += tags[0]
+                            open_tags.append(tags)
                         else:
                             s += tags[1]
+                            if open_tags:
+                                open_tags.pop()
 
                 # TODO: Refactor pycaption and eliminate the concept of a
                 # "Style node"
-- 
2.43.0


From 8a923181c04d23c863858b9310ee724e0164e8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:24 +0000
Subject: [PATCH 17/64] fix: size strings: reject a trailing newline and
 non-ASCII digits

---
 pycaption/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycaption/geometry.py b/pycaption/geometry.py
index f5cc8b0..6940a65 100644
--- a/pycaption/geometry.py
+++ b/pycaption/geometry.py
@@ -503,8 +503,8 @@ class Size:
         :rtype: Size
         """
         size_pattern = re.compile(
-            r"^(((?P<value>\d+(\.\d+)?)(?P<unit>"
-            fr"{'|'.join([unit.value for unit in UnitEnum])}))|0)$")
+            r"^(((?P<value>[0-9]+(\.[0-9]+)?)(?P<unit>"
+            fr"{'|'.join([unit.value for unit in UnitEnum])}))|0)\Z")
         match = size_pattern.search(string)
         if not match:
             raise CaptionReadSyntaxError(
-- 
2.43.0


From 9fbee864cbc0c80cde866da5583df59c4c4bc3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:03 +0000
Subject: [PATCH 18/64] fix: SRT detection: do not raise on a one-line input

---
 pycaption/srt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/srt.py b/pycaption/srt.py
index ae1712e..66a7718 100644
--- a/pycaption/srt.py
+++ b/pycaption/srt.py
@@ -9,7 +9,7 @@ from .exceptions import CaptionReadNoCaptions, InvalidInputError
 class SRTReader(BaseReader):
     def detect(self, content):
         lines = content.splitlines()
-        if lines[0].isdigit() and '-->' in lines[1]:
+        if len(lines) > 1 and lines[0].isdigit() and '-->' in lines[1]:
             return True
         else:
             return False
-- 
2.43.0


From 2e53ed5e985694d917f0132199ad9c43c6ceef94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:26 +0000
Subject: [PATCH 19/64] fix: MicroDVD: a cue within frame 0 is not the frame
 rate

---
 pycaption/microdvd.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pycaption/microdvd.py b/pycaption/microdvd.py
index fdd2b46..d856c8d 100644
--- a/pycaption/microdvd.py
+++ b/pycaption/microdvd.py
@@ -23,6 +23,7 @@ class MicroDVDReader(BaseReader):
         lines = content.splitlines()
         captions = CaptionList()
         fps = 25.0
+        found_fps = False
         for line in lines:
             if not line:
                 continue
@@ -34,9 +35,10 @@ class MicroDVDReader(BaseReader):
 
             start, end, txt = m.groups()
 
-            if start == '0' and end == '0':
+            if start == '0' and end == '0' and not found_fps:
                 try:
                     fps = float(txt)
+                    found_fps = True
                     continue
                 except ValueError:
                     raise CaptionReadTimingError(
@@ -83,7 +85,11 @@ class MicroDVDWriter(BaseWriter):
                 self._recreate_lang(caption_set.get_captions(lang))
             )
 
-        return ''.join(captions)
+        content = ''.join(captions)
+        if '\n{0}{0}' in '\n' + content:
+            # without a frame rate, such a cue would be taken for one
+            content = '{0}{0}25.0\n' + content
+        return content
 
     def _microtoframes(self, micro, fps=25.0):
         return int(micro * fps / (10 ** 6))
-- 
2.43.0


From 474979cdba1e03ec648e68254b9cf8bd31f85620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:47 +0000
Subject: [PATCH 20/64] fix: SAMI writer: define the class of a language whose
 code is the prefix of another's

The stylesheet was searched for 'lang: en', which 'lang: en-US;' contains, so
the paragraphs of language en had a class that is not defined (C14).
---
 pycaption/sami.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index ed083b6..cfeeada 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -530,7 +530,7 @@ class SAMIWriter(BaseWriter):
                     attr, value, caption_set.layout_info)
 
         for lang in caption_set.get_languages():
-            lang_string = f'lang: {lang}'
+            lang_string = f'lang: {lang};'
             if lang_string not in stylesheet:
                 stylesheet += self._recreate_style_block(
                     lang, {'lang': lang}, caption_set.get_layout_info(lang))
-- 
2.43.0


From fb4e7201cf0756c5b1ffd438874f20f62d659a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:49 +0000
Subject: [PATCH 21/64] fix: SAMI writer: a caption's class must not move it to
 another language

The paragraph was given the caption's own class whenever that class has any
language, even if it is not the language the caption belongs to (C14).
---
 pycaption/sami.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index cfeeada..e1a9819 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -515,7 +515,8 @@ class SAMIWriter(BaseWriter):
 
     def _recreate_p_lang(self, caption, lang, captions):
         try:
-            if 'lang' in captions.get_style(caption.style['class']):
+            style = captions.get_style(caption.style['class'])
+            if style.get('lang') == lang:
                 return caption.style['class']
         except KeyError:
             pass
-- 
2.43.0


From d41b2c003f305d060147dc40ba2289ef55fc979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:20 +0000
Subject: [PATCH 22/64] fix: SAMI writer: define the class used by captions
 without a class of their own

When a style of the set has the language, but a caption does not refer to it,
the caption's paragraph had a class that is not defined, so no language (C14).
---
 pycaption/sami.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index e1a9819..8c8d964 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -532,7 +532,12 @@ class SAMIWriter(BaseWriter):
 
         for lang in caption_set.get_languages():
             lang_string = f'lang: {lang};'
-            if lang_string not in stylesheet:
+            # captions that have no class of their own use the language's
+            by_lang = any(
+                self._recreate_p_lang(caption, lang, caption_set) == lang
+                for caption in caption_set.get_captions(lang))
+            defined = caption_set.get_style(lang).get('lang') == lang
+            if lang_string not in stylesheet or by_lang and not defined:
                 stylesheet += self._recreate_style_block(
                     lang, {'lang': lang}, caption_set.get_layout_info(lang))
 
-- 
2.43.0


From f0ddcc5b717b66fd317482110552f5daec36b91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:22 +0000
Subject: [PATCH 23/64] fix: DFXP reader: captions in a nested div are read
 once

They were returned for each of the divs around them, and under each of
their languages (C01/C14).
---
 pycaption/dfxp/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index dd21aca..0272e28 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -138,7 +138,9 @@ class DFXPReader(BaseReader):
     def _convert_div_to_caption_list(self, div):
         return CaptionList(
             [self._convert_p_tag_to_caption(p_tag)
-             for p_tag in div.find_all('p') if p_tag.get_text().strip()],
+             for p_tag in div.find_all('p')
+             # the captions of a nested div are converted with that div
+             if p_tag.find_parent('div') is div and p_tag.get_text().strip()],
             div.layout_info
         )
 
-- 
2.43.0


From 15a22510e13cb725c55442db9343efa0a2423ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:02 +0000
Subject: [PATCH 24/64] fix: SAMI reader: decode character references exactly
 once

Decoded characters (and attribute values) were handed to the second parser
unescaped, so '&amp;lt;' was read as '<' and '&#60;b' lost text. '&#X3E;'
raised ValueError (C04).
---
 pycaption/sami.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 8c8d964..a1c1b3a 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -39,10 +39,11 @@ import re
 from xml.dom import SyntaxErr
 from collections import deque
 from copy import deepcopy
+from html import unescape
 from html.entities import name2codepoint
 from html.parser import HTMLParser
 from logging import FATAL
-from xml.sax.saxutils import escape
+from xml.sax.saxutils import escape, quoteattr
 
 from bs4 import BeautifulSoup, NavigableString
 from cssutils import parseString, log, css as cssutils_css
@@ -702,7 +703,7 @@ class SAMIParser(HTMLParser):
             self.queue.append(tag)
             # add tag with attributes
             for attr, value in attrs:
-                tag += f' {attr.lower()}="{value}"'
+                tag += f' {attr.lower()}={quoteattr(value or "")}'
             self.sami += f"<{tag}>"
 
     # override the parser's handling of endtags
@@ -721,25 +722,20 @@ class SAMIParser(HTMLParser):
             self.sami += f"</{closing_tag}>"
 
     def handle_entityref(self, name):
-        if name in ['gt', 'lt']:
-            self.sami += f'&{name};'
-        else:
-            try:
-                self.sami += chr(self.name2codepoint[name])
-            except (KeyError, ValueError):
-                self.sami += f'&{name}'
+        # the characters are escaped again, for the next parser to decode once
+        try:
+            self.sami += escape(chr(self.name2codepoint[name]))
+        except (KeyError, ValueError):
+            self.sami += escape(f'&{name}')
 
         self.last_element = ''
 
     def handle_charref(self, name):
-        if name[0] == 'x':
-            self.sami += chr(int(name[1:], 16))
-        else:
-            self.sami += chr(int(name))
+        self.sami += escape(unescape(f'&#{name};'))
 
     # override the parser's handling of data
     def handle_data(self, data):
-        self.sami += data
+        self.sami += escape(data)
         self.last_element = ''
 
     # override the parser's feed function
-- 
2.43.0


From 8176fd5c7bcfc25a3d0a091580f95dea27810d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:23 +0000
Subject: [PATCH 25/64] fix: DFXP and SAMI readers: keep all words of text
 wrapped over several source lines

Only the first source line of each text was kept, and words on both sides of a
tag were joined when only a line end separated them (C04).
---
 pycaption/dfxp/base.py | 24 ++++++++++------------
 pycaption/sami.py      | 10 +++-------
 pycaption/utils.py     | 45 ++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 58 insertions(+), 21 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 0272e28..44ad2d9 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -17,7 +17,7 @@ from ..geometry import (
     Point, Stretch, UnitEnum, Padding, VerticalAlignmentEnum,
     HorizontalAlignmentEnum, Alignment, Layout,
 )
-from ..utils import is_leaf
+from ..utils import is_leaf, join_source_lines
 
 __all__ = [
     'DFXP_BASE_MARKUP', 'DFXP_DEFAULT_STYLE', 'DFXP_DEFAULT_STYLE_ID',
@@ -148,6 +148,7 @@ class DFXPReader(BaseReader):
         start, end = self._find_and_convert_times(p_tag)
         self.nodes = []
         self._convert_tag_to_node(p_tag)
+        self.nodes = join_source_lines(self.nodes, by_layout=True)
         styles = self._convert_style(p_tag)
 
         if len(self.nodes) > 0:
@@ -228,19 +229,14 @@ class DFXPReader(BaseReader):
     def _convert_tag_to_node(self, tag):
         # convert text
         if isinstance(tag, NavigableString):
-            # strips indentation whitespace only
-            pattern = re.compile("^(?:[\n\r]+\\s*)?(.+)")
-            result = pattern.search(tag)
-            if result:
-                # Escaping/unescaping xml entities is the responsibility of the
-                # xml parser used by BeautifulSoup in its initialization. The
-                # content of the tag variable at this point should be a plain
-                # unicode string with xml entities already converted to unicode
-                # characters.
-                tag_text = result.groups()[0]
-                node = CaptionNode.create_text(
-                    tag_text, layout_info=tag.layout_info)
-                self.nodes.append(node)
+            # Escaping/unescaping xml entities is the responsibility of the
+            # xml parser used by BeautifulSoup in its initialization. The
+            # content of the tag variable at this point should be a plain
+            # unicode string with xml entities already converted to unicode
+            # characters.
+            node = CaptionNode.create_text(
+                str(tag), layout_info=tag.layout_info)
+            self.nodes.append(node)
         # convert line breaks
         elif tag.name == 'br':
             self.nodes.append(
diff --git a/pycaption/sami.py b/pycaption/sami.py
index a1c1b3a..cf619b3 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -57,6 +57,7 @@ from .exceptions import (
     CaptionReadTimingError
 )
 from .geometry import Layout, Alignment, Padding, Size
+from .utils import join_source_lines
 
 # change cssutils default logging
 log.setLevel(FATAL)
@@ -217,6 +218,7 @@ class SAMIReader(BaseReader):
                 self.line = []
 
                 self._translate_tag(p, layout_info)
+                self.line = join_source_lines(self.line)
                 caption_layout = self._get_layout_class()(
                     alignment=self.first_alignment,
                     inherit_from=layout_info
@@ -256,13 +258,7 @@ class SAMIReader(BaseReader):
             # BeautifulSoup apparently handles unescaping character codes
             # (e.g. &amp;) automatically. The following variable, therefore,
             # should contain a plain unicode string.
-            # strips indentation whitespace only
-            pattern = re.compile("^(?:[\n\r]+\\s*)?(.+)")
-            result = pattern.search(tag)
-            if not result:
-                return
-            tag_text = result.groups()[0]
-            self.line.append(CaptionNode.create_text(tag_text, inherit_from))
+            self.line.append(CaptionNode.create_text(str(tag), inherit_from))
         # convert line breaks
         elif tag.name == 'br':
             self.line.append(CaptionNode.create_break(inherit_from))
diff --git a/pycaption/utils.py b/pycaption/utils.py
index e8ff6fb..d4ba212 100644
--- a/pycaption/utils.py
+++ b/pycaption/utils.py
@@ -1,3 +1,5 @@
+import re
+
 def is_leaf(element):
     """
     Return True if the element is a leaf, False otherwise. The element is
@@ -8,3 +10,46 @@ def is_leaf(element):
     if not name or name == 'br':
         return True
     return False
+
+
+def join_source_lines(nodes, by_layout=False):
+    """Replaces the line ends of the source, together with the indentation
+    around them, by single spaces. They are dropped where a displayed line
+    begins or ends, next to other space, and before closing punctuation.
+
+    :param nodes: list of CaptionNodes
+    :param by_layout: whether texts with different layouts are displayed on
+        different lines
+    :returns: list of CaptionNodes, without those left without any text
+    """
+    lines = [[]]
+    for node in nodes:
+        if node.type_ == node.BREAK:
+            lines.append([])
+        elif node.type_ == node.TEXT:
+            if (by_layout and lines[-1]
+                    and lines[-1][-1].layout_info != node.layout_info):
+                lines.append([])
+            lines[-1].append(node)
+
+    for line in lines:
+        # the displayed text before and after each source line end
+        pieces = [
+            [node, re.sub(r'[ \t]*[\r\n]+\s*', '\n', node.content)]
+            for node in line
+        ]
+        before = ' '
+        for piece in pieces:
+            if before[-1].isspace():
+                piece[1] = piece[1].lstrip('\n')
+            before = piece[1] or before
+        after = ' '
+        for piece in reversed(pieces):
+            if after[0].isspace() or after[0] in ',.;:!?':
+                piece[1] = piece[1].rstrip('\n')
+            after = piece[1] or after
+        for node, text in pieces:
+            node.content = text.replace('\n', ' ')
+
+    return [node for node in nodes
+            if node.type_ != node.TEXT or node.content]
-- 
2.43.0


From 7225e1b66f3db5a16d2f0a9e0e7aec54372e70bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:25 +0000
Subject: [PATCH 26/64] fix: DFXP reader: comments inside a paragraph are not
 text (C04)

---
 pycaption/dfxp/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 44ad2d9..d6d7c5f 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -4,6 +4,7 @@ from fractions import Fraction
 from xml.sax.saxutils import escape
 
 from bs4 import BeautifulSoup, NavigableString
+from bs4.element import CData, PreformattedString
 
 from ..base import (
     BaseReader, BaseWriter, CaptionSet, CaptionList, Caption, CaptionNode,
@@ -227,6 +228,9 @@ class DFXPReader(BaseReader):
         return int(microseconds)
 
     def _convert_tag_to_node(self, tag):
+        if isinstance(tag, PreformattedString) and not isinstance(tag, CData):
+            # a comment or processing instruction is not text
+            return
         # convert text
         if isinstance(tag, NavigableString):
             # Escaping/unescaping xml entities is the responsibility of the
-- 
2.43.0


From a87836ba38d333be1fd921f90a3a321edcaeade4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:01 +0000
Subject: [PATCH 27/64] fix: WebVTT reader: decode every character reference,
 strip only WebVTT tags

Numeric and most named references were left undecoded, any tag whose name
starts with a WebVTT tag's was stripped, and a voice with a class such as
'first-class' lost its name (C04).
---
 pycaption/webvtt.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index e83d510..74f3d4b 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -2,6 +2,7 @@ import datetime
 import re
 import sys
 from copy import deepcopy
+from html import unescape
 
 from .base import BaseReader, BaseWriter, Caption, CaptionList, CaptionNode, CaptionSet
 from .exceptions import (
@@ -17,9 +18,10 @@ from .geometry import HorizontalAlignmentEnum, Layout
 # The following pattern captures [start], [end] and [cue settings] if existent
 TIMING_LINE_PATTERN = re.compile(r"^(\S+)\s+-->\s+(\S+)(?:\s+(.*?))?\s*$")
 TIMESTAMP_PATTERN = re.compile(r"^(\d+):(\d{2})(:\d{2})?\.(\d{3})")
-VOICE_SPAN_PATTERN = re.compile("<v(\\.\\w+)* ([^>]*)>")
+VOICE_SPAN_PATTERN = re.compile(r"<v(\.[^\s.>]+)*[ \t]+([^>]*)>")
 OTHER_SPAN_PATTERN = re.compile(
-    r"</?([cibuv]|ruby|rt|lang|(\d+):(\d{2})(:\d{2})?\.(\d{3})).*?>"
+    r"</?(?:(?:[cibuv]|ruby|rt|lang)(?=[\s.>])[^>]*"
+    r"|\d+:\d{2}(?::\d{2})?\.\d{3})>"
 )  # These WebVTT tags are stripped off the cues on conversion
 
 WEBVTT_VERSION_OF = {
@@ -181,15 +183,8 @@ class WebVTTReader(BaseReader):
         # TODO: Add support for other WebVTT tags. For now just strip them
         # off the text.
         s = OTHER_SPAN_PATTERN.sub("", s)
-        # Replace WebVTT special XML codes with plain unicode values
-        s = s.replace("&lt;", "<")
-        s = s.replace("&gt;", ">")
-        s = s.replace("&lrm;", "\u200e")
-        s = s.replace("&rlm;", "\u200f")
-        s = s.replace("&nbsp;", "\u00a0")
-        # Must do ampersand last
-        s = s.replace("&amp;", "&")
-        return s
+        # Replace character references with plain unicode values
+        return unescape(s)
 
 
 class WebVTTWriter(BaseWriter):
-- 
2.43.0


From fdaadf7e543301b7d18ba33cd9c1a175bec4b2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:03 +0000
Subject: [PATCH 28/64] fix: SAMI reader: only drop a ';' before '>' inside a
 tag, not in text (C04)

---
 pycaption/sami.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index cf619b3..7bcce53 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -761,7 +761,7 @@ class SAMIParser(HTMLParser):
         data = data.replace('<i/>', '<i>')
 
         # fix awkward tags found in some SAMIs
-        data = data.replace(';>', '>')
+        data = re.sub(r'(<[a-zA-Z][^<>]*);>', r'\1>', data)
         HTMLParser.feed(self, data)
 
         # close any tags that remain in the queue
-- 
2.43.0


From 94343dadd6c7719f27c8bedb5d8b3ca98a169efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:35 +0000
Subject: [PATCH 29/64] fix: SRT, WebVTT and MicroDVD readers: only CR and LF
 end a line (C04)

---
 pycaption/microdvd.py |  3 ++-
 pycaption/srt.py      |  5 +++--
 pycaption/utils.py    | 14 ++++++++++++++
 pycaption/webvtt.py   |  3 ++-
 4 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/pycaption/microdvd.py b/pycaption/microdvd.py
index d856c8d..fdffaf0 100644
--- a/pycaption/microdvd.py
+++ b/pycaption/microdvd.py
@@ -10,6 +10,7 @@ from .exceptions import (
     CaptionReadNoCaptions, CaptionReadSyntaxError, CaptionReadTimingError,
     InvalidInputError,
 )
+from .utils import split_lines
 
 
 class MicroDVDReader(BaseReader):
@@ -20,7 +21,7 @@ class MicroDVDReader(BaseReader):
         if not isinstance(content, str):
             raise InvalidInputError('The content is not a unicode string.')
 
-        lines = content.splitlines()
+        lines = split_lines(content)
         captions = CaptionList()
         fps = 25.0
         found_fps = False
diff --git a/pycaption/srt.py b/pycaption/srt.py
index 66a7718..02cebdf 100644
--- a/pycaption/srt.py
+++ b/pycaption/srt.py
@@ -4,11 +4,12 @@ from .base import (
     BaseReader, BaseWriter, CaptionSet, CaptionList, Caption, CaptionNode,
 )
 from .exceptions import CaptionReadNoCaptions, InvalidInputError
+from .utils import split_lines
 
 
 class SRTReader(BaseReader):
     def detect(self, content):
-        lines = content.splitlines()
+        lines = split_lines(content)
         if len(lines) > 1 and lines[0].isdigit() and '-->' in lines[1]:
             return True
         else:
@@ -18,7 +19,7 @@ class SRTReader(BaseReader):
         if not isinstance(content, str):
             raise InvalidInputError('The content is not a unicode string.')
 
-        lines = content.splitlines()
+        lines = split_lines(content)
         start_line = 0
         captions = CaptionList()
 
diff --git a/pycaption/utils.py b/pycaption/utils.py
index d4ba212..df2160f 100644
--- a/pycaption/utils.py
+++ b/pycaption/utils.py
@@ -1,5 +1,19 @@
 import re
 
+
+def split_lines(content):
+    """Splits a document at its line ends: LF, CRLF or CR. Unlike with
+    str.splitlines, other separators (e.g. U+2028) are part of the text.
+
+    :type content: str
+    :rtype: list
+    """
+    lines = re.split(r'\r\n|\n|\r', content)
+    if not lines[-1]:
+        lines.pop()
+    return lines
+
+
 def is_leaf(element):
     """
     Return True if the element is a leaf, False otherwise. The element is
diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index 74f3d4b..b50d12e 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -12,6 +12,7 @@ from .exceptions import (
     InvalidInputError,
 )
 from .geometry import HorizontalAlignmentEnum, Layout
+from .utils import split_lines
 
 # A WebVTT timing line has both start/end times and layout related settings
 # (referred to as 'cue settings' in the documentation)
@@ -63,7 +64,7 @@ class WebVTTReader(BaseReader):
         if not isinstance(content, str):
             raise InvalidInputError("The content is not a unicode string.")
 
-        caption_set = CaptionSet({lang: self._parse(content.splitlines())})
+        caption_set = CaptionSet({lang: self._parse(split_lines(content))})
 
         if caption_set.is_empty():
             raise CaptionReadNoCaptions("empty caption file")
-- 
2.43.0


From 0b320be92adca1b470af8e89bc098eb27caa7b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:50 +0000
Subject: [PATCH 30/64] fix: DFXP writers: escape attribute values, leave out
 characters illegal in XML (C07)

---
 pycaption/dfxp/base.py   | 12 +++++++-----
 pycaption/dfxp/extras.py | 10 ++++++----
 pycaption/utils.py       | 34 ++++++++++++++++++++++++++++++++++
 3 files changed, 47 insertions(+), 9 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index d6d7c5f..636dfd4 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -1,7 +1,6 @@
 import re
 from copy import deepcopy
 from fractions import Fraction
-from xml.sax.saxutils import escape
 
 from bs4 import BeautifulSoup, NavigableString
 from bs4.element import CData, PreformattedString
@@ -18,7 +17,10 @@ from ..geometry import (
     Point, Stretch, UnitEnum, Padding, VerticalAlignmentEnum,
     HorizontalAlignmentEnum, Alignment, Layout,
 )
-from ..utils import is_leaf, join_source_lines
+from ..utils import (
+    HandmadeMarkupFormatter, escape_xml, is_leaf, join_source_lines,
+    quote_xml_attribute,
+)
 
 __all__ = [
     'DFXP_BASE_MARKUP', 'DFXP_DEFAULT_STYLE', 'DFXP_DEFAULT_STYLE_ID',
@@ -390,7 +392,7 @@ class DFXPWriter(BaseWriter):
 
             body.append(div)
         self.region_creator.cleanup_regions()
-        caption_content = dfxp.prettify(formatter=None)
+        caption_content = dfxp.prettify(formatter=HandmadeMarkupFormatter())
         return caption_content
 
     @staticmethod
@@ -477,7 +479,7 @@ class DFXPWriter(BaseWriter):
 
             content_with_style = _recreate_style(node.content, dfxp)
             for style, value in list(content_with_style.items()):
-                styles += f' {style}="{value}"'
+                styles += f' {style}={quote_xml_attribute(value)}'
             if node.layout_info:
                 region_id, region_attribs = (
                     self.region_creator.get_positioning_info(
@@ -512,7 +514,7 @@ class DFXPWriter(BaseWriter):
         :type s: str
         :param s: The content of a text node
         """
-        return escape(s)
+        return escape_xml(s)
 
 
 class LayoutAwareDFXPParser(BeautifulSoup):
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 2226f0a..b683602 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -2,12 +2,14 @@
 # in a lot of cases, but since the transformations on them could be quite
 # complex, the deepcopy method is good enough sometimes.
 from copy import deepcopy
-from xml.sax.saxutils import escape
 
 from bs4 import BeautifulSoup
 
 from .base import DFXPWriter, DFXP_DEFAULT_REGION
 from ..base import BaseWriter, CaptionNode, merge_concurrent_captions
+from ..utils import (
+    HandmadeMarkupFormatter, escape_xml, quote_xml_attribute,
+)
 
 LEGACY_DFXP_BASE_MARKUP = '''
 <tt xmlns="http://www.w3.org/ns/ttml"
@@ -139,7 +141,7 @@ class LegacyDFXPWriter(BaseWriter):
 
             body.append(div)
 
-        caption_content = dfxp.prettify(formatter=None)
+        caption_content = dfxp.prettify(formatter=HandmadeMarkupFormatter())
         return caption_content
 
     # force the DFXP to only have one language, trying to match on "force"
@@ -195,7 +197,7 @@ class LegacyDFXPWriter(BaseWriter):
 
         for node in caption.nodes:
             if node.type_ == CaptionNode.TEXT:
-                line += escape(node.content)
+                line += escape_xml(node.content)
 
             elif node.type_ == CaptionNode.BREAK:
                 line = line.rstrip() + '<br/>\n    '
@@ -211,7 +213,7 @@ class LegacyDFXPWriter(BaseWriter):
 
             content_with_style = self._recreate_style(node.content, dfxp)
             for style, value in list(content_with_style.items()):
-                styles += f' {style}="{value}"'
+                styles += f' {style}={quote_xml_attribute(value)}'
 
             if styles:
                 if self.open_span:
diff --git a/pycaption/utils.py b/pycaption/utils.py
index df2160f..01e2195 100644
--- a/pycaption/utils.py
+++ b/pycaption/utils.py
@@ -1,4 +1,7 @@
 import re
+from xml.sax.saxutils import escape
+
+from bs4.formatter import XMLFormatter
 
 
 def split_lines(content):
@@ -14,6 +17,37 @@ def split_lines(content):
     return lines
 
 
+def escape_xml(value):
+    """Escapes a string for the use in XML text, or in a quoted attribute value
+    once its quotes are taken care of. Characters that no XML 1.0 document can
+    contain are left out.
+
+    :rtype: str
+    """
+    return escape(re.sub(
+        '[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]', '',
+        str(value)))
+
+
+def quote_xml_attribute(value):
+    """Escapes and quotes the value of an XML attribute
+
+    :rtype: str
+    """
+    return '"' + escape_xml(value).replace('"', '&quot;') + '"'
+
+
+class HandmadeMarkupFormatter(XMLFormatter):
+    """Formats an XML document the text of which is already escaped markup,
+    while the values of its attributes are not escaped.
+    """
+    def substitute(self, ns):
+        return ns
+
+    def attribute_value(self, value):
+        return escape_xml(value)
+
+
 def is_leaf(element):
     """
     Return True if the element is a leaf, False otherwise. The element is
-- 
2.43.0


From ead25ae2e70b9d8d57f4538a0a6e608743894360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:00 +0000
Subject: [PATCH 31/64] fix: DFXP writers: style ids that no xml:id can have
 (C07)

---
 pycaption/dfxp/base.py   | 42 +++++++++++++++++++++++++++++++++++++++-
 pycaption/dfxp/extras.py |  5 ++++-
 pycaption/utils.py       | 40 +++++++++++++++++++++++++++++++-------
 3 files changed, 78 insertions(+), 9 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 636dfd4..48360df 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -19,7 +19,7 @@ from ..geometry import (
 )
 from ..utils import (
     HandmadeMarkupFormatter, escape_xml, is_leaf, join_source_lines,
-    quote_xml_attribute,
+    quote_xml_attribute, to_xml_id,
 )
 
 __all__ = [
@@ -349,6 +349,7 @@ class DFXPWriter(BaseWriter):
             dfxp.find('tt')['xml:lang'] = DFXP_DEFAULT_LANGUAGE_CODE
 
         caption_set = deepcopy(caption_set)
+        _make_style_ids_valid(caption_set)
 
         # Loop through all captions/nodes and apply transformations to layout
         # in function of the provided or default settings
@@ -1172,6 +1173,45 @@ class RegionCreator:
                 region.extract()
 
 
+def _make_style_ids_valid(caption_set):
+    """Renames the styles of the caption set whose ids can't be used as the
+    xml:id of a <style>, together with the references to them.
+
+    :type caption_set: CaptionSet
+    """
+    styles = dict(caption_set.get_styles())
+    new_ids = {id_: id_ for id_ in styles if id_ == to_xml_id(id_)}
+    if len(new_ids) == len(styles):
+        return
+
+    assigned = set(new_ids)
+    for id_ in styles:
+        if id_ not in new_ids:
+            new_id = to_xml_id(id_)
+            while new_id in assigned:
+                new_id += '_'
+            assigned.add(new_id)
+            new_ids[id_] = new_id
+
+    def convert(content):
+        if not content or 'class' not in content:
+            return content
+        content = dict(content)
+        class_ = content.pop('class')
+        if class_ in new_ids:
+            content['class'] = new_ids[class_]
+        return content
+
+    caption_set.set_styles(
+        {new_ids[id_]: convert(style) for id_, style in styles.items()})
+    for lang in caption_set.get_languages():
+        for caption in caption_set.get_captions(lang):
+            caption.style = convert(caption.style)
+            for node in caption.nodes:
+                if node.type_ == CaptionNode.STYLE:
+                    node.content = convert(node.content)
+
+
 def _recreate_style(content, dfxp):
     dfxp_style = {}
 
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index b683602..dfaa4cb 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -5,7 +5,9 @@ from copy import deepcopy
 
 from bs4 import BeautifulSoup
 
-from .base import DFXPWriter, DFXP_DEFAULT_REGION
+from .base import (
+    DFXPWriter, DFXP_DEFAULT_REGION, _make_style_ids_valid,
+)
 from ..base import BaseWriter, CaptionNode, merge_concurrent_captions
 from ..utils import (
     HandmadeMarkupFormatter, escape_xml, quote_xml_attribute,
@@ -101,6 +103,7 @@ class LegacyDFXPWriter(BaseWriter):
     def write(self, caption_set, force=''):
         caption_set = deepcopy(caption_set)
         caption_set = merge_concurrent_captions(caption_set)
+        _make_style_ids_valid(caption_set)
 
         dfxp = BeautifulSoup(LEGACY_DFXP_BASE_MARKUP, 'lxml-xml')
         dfxp.find('tt')['xml:lang'] = "en"
diff --git a/pycaption/utils.py b/pycaption/utils.py
index 01e2195..91541bf 100644
--- a/pycaption/utils.py
+++ b/pycaption/utils.py
@@ -17,16 +17,20 @@ def split_lines(content):
     return lines
 
 
-def escape_xml(value):
-    """Escapes a string for the use in XML text, or in a quoted attribute value
-    once its quotes are taken care of. Characters that no XML 1.0 document can
-    contain are left out.
+def escape_xml(value, entities={}):
+    """Escapes a string for the use in XML text. Characters that no XML 1.0
+    document can contain are left out.
 
+    :param entities: a dict of further characters to replace
     :rtype: str
     """
     return escape(re.sub(
         '[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]', '',
-        str(value)))
+        str(value)), entities)
+
+
+# white space that is only preserved in attributes if spelled as references
+_WHITESPACE = {'\t': '&#9;', '\n': '&#10;', '\r': '&#13;'}
 
 
 def quote_xml_attribute(value):
@@ -34,7 +38,29 @@ def quote_xml_attribute(value):
 
     :rtype: str
     """
-    return '"' + escape_xml(value).replace('"', '&quot;') + '"'
+    return '"' + escape_xml(value, {'"': '&quot;', **_WHITESPACE}) + '"'
+
+
+# The letters of the major scripts among those every edition of XML 1.0 allows
+_NAME_START = (
+    'A-Z_a-z\xc0-\xd6\xd8-\xf6\xf8-\u0131\u0134-\u013e\u0141-\u0148\u014a-\u017e'
+    '\u0388-\u038a\u038e-\u03a1\u03a3-\u03ce\u0401-\u040c\u040e-\u044f'
+    '\u0451-\u045c\u05d0-\u05ea\u0621-\u063a\u0641-\u064a'
+    '\u3041-\u3094\u30a1-\u30fa\u4e00-\u9fa5\uac00-\ud7a3'
+)
+_NAME_CHAR = _NAME_START + '0-9.-'
+
+
+def to_xml_id(name):
+    """Returns the name if it can be the value of an xml:id attribute, else the
+    name with all the characters that can't appear there replaced.
+
+    :rtype: str
+    """
+    name = re.sub(f'[^{_NAME_CHAR}]', '_', str(name))
+    if not re.match(f'[{_NAME_START}]', name):
+        name = '_' + name
+    return name
 
 
 class HandmadeMarkupFormatter(XMLFormatter):
@@ -45,7 +71,7 @@ class HandmadeMarkupFormatter(XMLFormatter):
         return ns
 
     def attribute_value(self, value):
-        return escape_xml(value)
+        return escape_xml(value, _WHITESPACE)
 
 
 def is_leaf(element):
-- 
2.43.0


From 196149495b6e4473724f32ea6da5b2cd4cc37cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:02 +0000
Subject: [PATCH 32/64] fix: DFXP writer: inline positioning of a span must not
 repeat its attributes (C07)

---
 pycaption/dfxp/base.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 48360df..cf83985 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -478,22 +478,17 @@ class DFXPWriter(BaseWriter):
         if node.start:
             styles = ''
 
-            content_with_style = _recreate_style(node.content, dfxp)
-            for style, value in list(content_with_style.items()):
-                styles += f' {style}={quote_xml_attribute(value)}'
+            attributes = _recreate_style(node.content, dfxp)
             if node.layout_info:
                 region_id, region_attribs = (
                     self.region_creator.get_positioning_info(
                         lang, caption_set, caption, node
                     ))
-                styles += f' region="{region_id}"'
+                attributes['region'] = region_id
                 if self.write_inline_positioning:
-                    styles += ' ' + ' '.join(
-                        [
-                            f'{k_}="{v_}"'
-                            for k_, v_ in list(region_attribs.items())
-                        ]
-                    )
+                    attributes.update(region_attribs)
+            for name, value in attributes.items():
+                styles += f' {name}={quote_xml_attribute(value)}'
 
             if styles:
                 if self.open_span:
-- 
2.43.0


From a4bd6c20b5ee62730638bcb07c1b1774b0524905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:03 +0000
Subject: [PATCH 33/64] fix: DFXP writers: region ids differ from style ids, no
 unused default region (C07)

---
 pycaption/dfxp/base.py   | 16 ++++++++++++----
 pycaption/dfxp/extras.py | 23 +++++++++++++----------
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index cf83985..d780e9e 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -1004,6 +1004,12 @@ class RegionCreator:
         self._region_map = {}
         self._id_seed = 0
         self._assigned_region_ids = set()
+        # the ids of the regions must differ from those of the styles
+        self._style_ids = {
+            style.get('xml:id') for style in dfxp.find_all('style')}
+        self._default_region_id = DFXP_DEFAULT_REGION_ID
+        if self._default_region_id in self._style_ids:
+            self._default_region_id = self._get_new_id()
 
     @staticmethod
     def _collect_unique_regions(caption_set, ignore_region):
@@ -1080,7 +1086,7 @@ class RegionCreator:
         # Creates the default region
         default_region_map = self._create_unique_regions(
             [DFXP_DEFAULT_REGION],
-            self._dfxp, lambda: DFXP_DEFAULT_REGION_ID
+            self._dfxp, lambda: self._default_region_id
         )
         unique_regions = self._collect_unique_regions(
             self._caption_set, DFXP_DEFAULT_REGION)
@@ -1096,8 +1102,10 @@ class RegionCreator:
 
         :type prefix: str
         """
-        new_id = f'{prefix}{self._id_seed}'
-        self._id_seed += 1
+        new_id = None
+        while new_id is None or new_id in self._style_ids:
+            new_id = f'{prefix}{self._id_seed}'
+            self._id_seed += 1
         return new_id
 
     def get_positioning_info(
@@ -1144,7 +1152,7 @@ class RegionCreator:
         # Make sure the default region ID/ attributes are always returned
         # as fallback
         if not region_id:
-            region_id = DFXP_DEFAULT_REGION_ID
+            region_id = self._default_region_id
 
         positioning_attributes = _convert_layout_to_attributes(layout_info)
 
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index dfaa4cb..414197b 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -115,18 +115,22 @@ class LegacyDFXPWriter(BaseWriter):
             dfxp = self._recreate_styling_tag(
                 LEGACY_DFXP_DEFAULT_STYLE_ID, LEGACY_DFXP_DEFAULT_STYLE, dfxp)
 
-        # XXX For now we will always use this default region. In the future if
-        # regions are provided, they will be kept
-        dfxp = self._recreate_region_tag(
-            LEGACY_DFXP_DEFAULT_REGION_ID, LEGACY_DFXP_DEFAULT_REGION, dfxp)
-
-        body = dfxp.find('body')
-
         if force:
             langs = [self._force_language(force, caption_set.get_languages())]
         else:
             langs = caption_set.get_languages()
 
+        # XXX For now we will always use this default region. In the future if
+        # regions are provided, they will be kept
+        region_id = LEGACY_DFXP_DEFAULT_REGION_ID
+        while dfxp.find('style', {'xml:id': region_id}):
+            region_id += '_'
+        if any(caption_set.get_captions(lang) for lang in langs):
+            dfxp = self._recreate_region_tag(
+                region_id, LEGACY_DFXP_DEFAULT_REGION, dfxp)
+
+        body = dfxp.find('body')
+
         for lang in langs:
             div = dfxp.new_tag('div')
             div['xml:lang'] = lang
@@ -134,11 +138,10 @@ class LegacyDFXPWriter(BaseWriter):
             for caption in caption_set.get_captions(lang):
                 if caption.style:
                     caption_style = caption.style
-                    caption_style.update(
-                        {'region': LEGACY_DFXP_DEFAULT_REGION_ID})
+                    caption_style.update({'region': region_id})
                 else:
                     caption_style = {'class': LEGACY_DFXP_DEFAULT_STYLE_ID,
-                                     'region': LEGACY_DFXP_DEFAULT_REGION_ID}
+                                     'region': region_id}
                 p = self._recreate_p_tag(caption, caption_style, dfxp)
                 div.append(p)
 
-- 
2.43.0


From 61d17ecaadbe65c2ab3c1f0e3d90ba35df949e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:02 +0000
Subject: [PATCH 34/64] fix: DFXP writer: relativize and fit to screen the
 layouts captions inherit (C13)

---
 pycaption/dfxp/base.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index d780e9e..24f84ed 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -354,9 +354,16 @@ class DFXPWriter(BaseWriter):
         # Loop through all captions/nodes and apply transformations to layout
         # in function of the provided or default settings
         for lang in langs:
+            lang_layout = (
+                caption_set.get_layout_info(lang) or caption_set.layout_info)
+            # The <div> itself is never fit to the screen, the captions that
+            # have the layout of their language are
+            if lang_layout and self.relativize:
+                caption_set.set_layout_info(lang, lang_layout.as_percentage_of(
+                    self.video_width, self.video_height))
             for caption in caption_set.get_captions(lang):
                 caption.layout_info = self._relativize_and_fit_to_screen(
-                    caption.layout_info)
+                    caption.layout_info or lang_layout)
                 for node in caption.nodes:
                     node.layout_info = self._relativize_and_fit_to_screen(
                         node.layout_info)
@@ -1033,7 +1040,7 @@ class RegionCreator:
         languages = caption_set.get_languages()
         for lang in languages:
             layout_info = caption_set.get_layout_info(lang)
-            unique_regions.add(layout_info)
+            unique_regions.add(layout_info or caption_set.layout_info)
 
             # Get the regions of all the captions.. (the <p> tags)
             for caption in caption_set.get_captions(lang):
-- 
2.43.0


From ded04ca85c11a47940d409ad87926bc2b70dd6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:03 +0000
Subject: [PATCH 35/64] fix: DFXP writer: write the region of text nodes that
 have a layout of their own (C12)

---
 pycaption/dfxp/base.py | 52 ++++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 24f84ed..2a35797 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -461,20 +461,40 @@ class DFXPWriter(BaseWriter):
 
     def _recreate_text(self, caption, dfxp, caption_set=None, lang=None):
         line = ''
+        span_layout = None
 
         for node in caption.nodes:
             if node.type_ == CaptionNode.TEXT:
-                line += self._encode(node.content)
+                text = self._encode(node.content)
+                if node.layout_info and node.layout_info != (
+                        span_layout or caption.layout_info):
+                    attributes = self._get_region_attributes(
+                        lang, caption_set, caption, node)
+                    text = _create_span(attributes) + text + '</span>'
+                line += text
 
             elif node.type_ == CaptionNode.BREAK:
                 line = line.rstrip() + '<br/>\n    '
 
             elif node.type_ == CaptionNode.STYLE:
+                span_layout = node.layout_info if node.start else None
                 line = self._recreate_span(
                     line, node, dfxp, caption_set, caption, lang)
 
         return line.rstrip()
 
+    def _get_region_attributes(self, lang, caption_set, caption, node):
+        """Returns the attributes that assign a <span> to the region of a node
+
+        :rtype: dict
+        """
+        region_id, region_attribs = self.region_creator.get_positioning_info(
+            lang, caption_set, caption, node)
+        attributes = {'region': region_id}
+        if self.write_inline_positioning:
+            attributes.update(region_attribs)
+        return attributes
+
     def _recreate_span(self, line, node, dfxp, caption_set=None, caption=None,
                        lang=None):
         # TODO - This method seriously has to go away!
@@ -483,24 +503,15 @@ class DFXPWriter(BaseWriter):
         # We are left with creating tags manually, which is hard to understand
         # and harder to maintain
         if node.start:
-            styles = ''
-
             attributes = _recreate_style(node.content, dfxp)
             if node.layout_info:
-                region_id, region_attribs = (
-                    self.region_creator.get_positioning_info(
-                        lang, caption_set, caption, node
-                    ))
-                attributes['region'] = region_id
-                if self.write_inline_positioning:
-                    attributes.update(region_attribs)
-            for name, value in attributes.items():
-                styles += f' {name}={quote_xml_attribute(value)}'
-
-            if styles:
+                attributes.update(self._get_region_attributes(
+                    lang, caption_set, caption, node))
+
+            if attributes:
                 if self.open_span:
                     line += '</span>'
-                line += f'<span{styles}>'
+                line += _create_span(attributes)
                 self.open_span = True
 
         elif self.open_span:
@@ -1222,6 +1233,17 @@ def _make_style_ids_valid(caption_set):
                     node.content = convert(node.content)
 
 
+def _create_span(attributes):
+    """Returns the start tag of a <span>
+
+    :rtype: str
+    """
+    return '<span' + ''.join(
+        f' {name}={quote_xml_attribute(value)}'
+        for name, value in attributes.items()
+    ) + '>'
+
+
 def _recreate_style(content, dfxp):
     dfxp_style = {}
 
-- 
2.43.0


From ddebd093c50610305be636380c0f07b20788dd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:59 +0000
Subject: [PATCH 36/64] fix: CaptionSet: a language without captions still has
 a layout (C13)

---
 pycaption/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/base.py b/pycaption/base.py
index 1fa7789..c1cdd35 100644
--- a/pycaption/base.py
+++ b/pycaption/base.py
@@ -355,7 +355,7 @@ class CaptionSet:
 
     def get_layout_info(self, lang):
         caption_list = self._captions.get(lang)
-        if caption_list:
+        if caption_list is not None:
             return caption_list.layout_info
         return None
 
-- 
2.43.0


From 8969a54ab09ba4f4d74874298d55a93f7eed5ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:00 +0000
Subject: [PATCH 37/64] fix: SAMI writer: the class of a language has that
 language's margins, relativized (C13)

---
 pycaption/sami.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 7bcce53..c2ab486 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -524,8 +524,13 @@ class SAMIWriter(BaseWriter):
 
         for attr, value in caption_set.get_styles():
             if value != {}:
+                # the class of a language has the layout of that language
+                layout_info = caption_set.layout_info
+                if value.get('lang') in caption_set.get_languages():
+                    layout_info = (caption_set.get_layout_info(value['lang'])
+                                   or layout_info)
                 stylesheet += self._recreate_style_block(
-                    attr, value, caption_set.layout_info)
+                    attr, value, layout_info)
 
         for lang in caption_set.get_languages():
             lang_string = f'lang: {lang};'
-- 
2.43.0


From 0079c82f646f6afb0b917216be9feaa86890426f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:23 +0000
Subject: [PATCH 38/64] fix: fit-to-screen: no negative extents for an origin
 outside the safe area (C12)

---
 pycaption/geometry.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pycaption/geometry.py b/pycaption/geometry.py
index 6940a65..bf804fa 100644
--- a/pycaption/geometry.py
+++ b/pycaption/geometry.py
@@ -832,8 +832,11 @@ class Layout:
 
         if self.origin:
             # Calculated values to be used if replacement is needed
-            diff_horizontal = Size(90 - self.origin.x.value, UnitEnum.PERCENT)
-            diff_vertical = Size(95 - self.origin.y.value, UnitEnum.PERCENT)
+            # (a size is never negative, not even beyond the safe area)
+            diff_horizontal = Size(
+                max(90 - self.origin.x.value, 0), UnitEnum.PERCENT)
+            diff_vertical = Size(
+                max(95 - self.origin.y.value, 0), UnitEnum.PERCENT)
             if not self.extent:
                 # Extent is not set, use the calculated values
                 new_extent = Stretch(diff_horizontal, diff_vertical)
-- 
2.43.0


From ca07d088dda793a1cfa8646067874bc90c0aa13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:19 +0000
Subject: [PATCH 39/64] fix: DFXP writers: italics that are switched off are
 not italic (C11)

---
 pycaption/dfxp/base.py   | 2 +-
 pycaption/dfxp/extras.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 2a35797..9adc90f 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -1252,7 +1252,7 @@ def _recreate_style(content, dfxp):
             dfxp_style['style'] = content['class']
     if 'text-align' in content:
         dfxp_style['tts:textAlign'] = content['text-align']
-    if 'italics' in content:
+    if content.get('italics'):
         dfxp_style['tts:fontStyle'] = 'italic'
     if 'font-family' in content:
         dfxp_style['tts:fontFamily'] = content['font-family']
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 414197b..5fa4b2e 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -244,7 +244,7 @@ class LegacyDFXPWriter(BaseWriter):
                 dfxp_style['style'] = content['class']
         if 'text-align' in content:
             dfxp_style['tts:textAlign'] = content['text-align']
-        if 'italics' in content:
+        if content.get('italics'):
             dfxp_style['tts:fontStyle'] = 'italic'
         if 'font-family' in content:
             dfxp_style['tts:fontFamily'] = content['font-family']
-- 
2.43.0


From 78f242f0bf3cee08f428f5804bc1672feeb0536b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:21 +0000
Subject: [PATCH 40/64] fix: SAMI: quote the attributes of spans, accept spaces
 in inline styles (C11)

---
 pycaption/sami.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index c2ab486..979a2c3 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -320,7 +320,7 @@ class SAMIReader(BaseReader):
         for style in styles:
             style = style.split(':')
             if len(style) == 2:
-                css_property, value = style
+                css_property, value = style[0].strip(), style[1]
             else:
                 continue
             if css_property == 'text-align':
@@ -613,14 +613,14 @@ class SAMIWriter(BaseWriter):
         style = ''
         klass = ''
         if 'class' in content:
-            klass += f' class="{content["class"]}"'
+            klass += f' class={quoteattr(content["class"])}'
 
         for attr, value in list(self._recreate_style(content).items()):
             style += f'{attr}:{value};'
 
         if style or klass:
             if style:
-                style = f' style="{style}"'
+                style = f' style={quoteattr(style)}'
             line += f'<span{klass}{style}>'
             self.open_span = True
 
-- 
2.43.0


From 764a8ef4e0941e92a3090ecbe24ce9f5619735d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:52 +0000
Subject: [PATCH 41/64] fix: SCC: italics end at every plain preamble, label
 all of them (C05)

---
 pycaption/scc/constants.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pycaption/scc/constants.py b/pycaption/scc/constants.py
index e8a9f39..5bc3c03 100644
--- a/pycaption/scc/constants.py
+++ b/pycaption/scc/constants.py
@@ -1135,6 +1135,7 @@ COMMAND_LABELS = {
     "917a": "row 02, column 20, with plain white text.",
     "91fb": "row 02, column 20, with white underlined text.",
     "91fc": "row 02, column 24, with plain white text.",
+    "917c": "row 02, column 24, with plain white text.",
     "91fd": "row 02, column 24, with white underlined text.",
     "91fe": "row 02, column 28, with plain white text.",
     "917f": "row 02, column 28, with white underlined text.",
@@ -1199,6 +1200,7 @@ COMMAND_LABELS = {
     "927a": "row 04, column 20, with plain white text.",
     "92fb": "row 04, column 20, with white underlined text.",
     "92fc": "row 04, column 24, with plain white text.",
+    "927c": "row 04, column 24, with plain white text.",
     "92fd": "row 04, column 24, with white underlined text.",
     "92fe": "row 04, column 28, with plain white text.",
     "927f": "row 04, column 28, with white underlined text.",
@@ -1236,7 +1238,7 @@ COMMAND_LABELS = {
     "15df": "row 05, column 28, with white underlined text.",
     "15e0": "row 06, column 00, with plain white text.",
     "1561": "row 06, column 00, with white underlined text.",
-    "15462": "row 06, column 00, with plain green text.",
+    "1562": "row 06, column 00, with plain green text.",
     "15e3": "row 06, column 00, with green underlined text.",
     "1564": "row 06, column 00, with plain blue text.",
     "15e5": "row 06, column 00, with blue underlined text.",
@@ -1263,6 +1265,7 @@ COMMAND_LABELS = {
     "157a": "row 06, column 20, with plain white text.",
     "15fb": "row 06, column 20, with white underlined text.",
     "15fc": "row 06, column 24, with plain white text.",
+    "157c": "row 06, column 24, with plain white text.",
     "15fd": "row 06, column 24, with white underlined text.",
     "15fe": "row 06, column 28, with plain white text.",
     "157f": "row 06, column 28, with white underlined text.",
@@ -1300,7 +1303,7 @@ COMMAND_LABELS = {
     "16df": "row 07, column 28, with white underlined text.",
     "16e0": "row 08, column 00, with plain white text.",
     "1661": "row 08, column 00, with white underlined text.",
-    "16462": "row 08, column 00, with plain green text.",
+    "1662": "row 08, column 00, with plain green text.",
     "16e3": "row 08, column 00, with green underlined text.",
     "1664": "row 08, column 00, with plain blue text.",
     "16e5": "row 08, column 00, with blue underlined text.",
@@ -1327,6 +1330,7 @@ COMMAND_LABELS = {
     "167a": "row 08, column 20, with plain white text.",
     "16fb": "row 08, column 20, with white underlined text.",
     "16fc": "row 08, column 24, with plain white text.",
+    "167c": "row 08, column 24, with plain white text.",
     "16fd": "row 08, column 24, with white underlined text.",
     "16fe": "row 08, column 28, with plain white text.",
     "167f": "row 08, column 28, with white underlined text.",
@@ -1391,6 +1395,7 @@ COMMAND_LABELS = {
     "977a": "row 10, column 20, with plain white text.",
     "97fb": "row 10, column 20, with white underlined text.",
     "97fc": "row 10, column 24, with plain white text.",
+    "977c": "row 10, column 24, with plain white text.",
     "97fd": "row 10, column 24, with white underlined text.",
     "97fe": "row 10, column 28, with plain white text.",
     "977f": "row 10, column 28, with white underlined text.",
@@ -1460,7 +1465,7 @@ COMMAND_LABELS = {
     "13df": "row 12, column 28, with white underlined text.",
     "13e0": "row 13, column 00, with plain white text.",
     "1361": "row 13, column 00, with white underlined text.",
-    "13462": "row 13, column 00, with plain green text.",
+    "1362": "row 13, column 00, with plain green text.",
     "13e3": "row 13, column 00, with green underlined text.",
     "1364": "row 13, column 00, with plain blue text.",
     "13e5": "row 13, column 00, with blue underlined text.",
@@ -1487,6 +1492,7 @@ COMMAND_LABELS = {
     "137a": "row 13, column 20, with plain white text.",
     "13fb": "row 13, column 20, with white underlined text.",
     "13fc": "row 13, column 24, with plain white text.",
+    "137c": "row 13, column 24, with plain white text.",
     "13fd": "row 13, column 24, with white underlined text.",
     "13fe": "row 13, column 28, with plain white text.",
     "137f": "row 13, column 28, with white underlined text.",
@@ -1551,6 +1557,7 @@ COMMAND_LABELS = {
     "947a": "row 15, column 20, with plain white text.",
     "94fb": "row 15, column 20, with white underlined text.",
     "94fc": "row 15, column 24, with plain white text.",
+    "947c": "row 15, column 24, with plain white text.",
     "94fd": "row 15, column 24, with white underlined text.",
     "94fe": "row 15, column 28, with plain white text.",
     "947f": "row 15, column 28, with white underlined text.",
-- 
2.43.0


From fad49dcea6e70478003106d4e85920853a10949f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:48 +0000
Subject: [PATCH 42/64] fix: SCC: a displayed or erased text does not affect
 the position of the next one (C05)

---
 pycaption/scc/__init__.py                |  2 ++
 pycaption/scc/specialized_collections.py |  2 ++
 pycaption/scc/state_machines.py          | 19 +++++++++++++++++++
 3 files changed, 23 insertions(+)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index 5846f55..4a11f6c 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -453,6 +453,7 @@ class SCCReader(BaseReader):
         # clear pop_on buffer
         elif word == "94ae":
             self.buffer = self.node_creator_factory.new_creator()
+            self.node_creator_factory.position_tracker.acknowledge_text_complete()
 
         # display pop_on buffer [End Of Caption]
         elif word == "942f":
@@ -465,6 +466,7 @@ class SCCReader(BaseReader):
             cue = PopOnCue(buffer=deepcopy(self.buffer), start=self.time, end=0)
             self.pop_ons_queue.appendleft(cue)
             self.buffer = self.node_creator_factory.new_creator()
+            self.node_creator_factory.position_tracker.acknowledge_text_complete()
 
         # roll up captions [Carriage Return]
         elif word == "94ad":
diff --git a/pycaption/scc/specialized_collections.py b/pycaption/scc/specialized_collections.py
index 1bd5bf9..2349d5a 100644
--- a/pycaption/scc/specialized_collections.py
+++ b/pycaption/scc/specialized_collections.py
@@ -363,6 +363,8 @@ class InstructionNodeCreator:
             self._position_tracer.acknowledge_position_changed()
 
         node.add_chars(*chars)
+        if any(chars):
+            self._position_tracer.acknowledge_text_added()
 
     @staticmethod
     def get_style_for_command(command):
diff --git a/pycaption/scc/state_machines.py b/pycaption/scc/state_machines.py
index de5a4e8..adb7720 100644
--- a/pycaption/scc/state_machines.py
+++ b/pycaption/scc/state_machines.py
@@ -18,6 +18,8 @@ class _PositioningTracker:
         # this attribute is used to store it and determine by comparison if the
         # next positioning is actually a Tab Offset
         self._last_column = None
+        # Whether the positioned text is complete (displayed or erased)
+        self._text_complete = False
 
     def update_positioning(self, positioning):
         """Being notified of a position change, updates the internal state,
@@ -29,6 +31,15 @@ class _PositioningTracker:
         """
         current = self._positions[-1]
 
+        if self._text_complete and positioning:
+            # The positioning of new text doesn't relate to the one of the
+            # previous text
+            self._positions = [positioning]
+            self._break_required = False
+            self._repositioning_required = False
+            self._text_complete = False
+            return
+
         if not current:
             if positioning:
                 # Set the positioning for the first time
@@ -59,6 +70,14 @@ class _PositioningTracker:
             if not is_tab_offset:
                 self._repositioning_required = True
 
+    def acknowledge_text_complete(self):
+        """Call when the text positioned so far was displayed, or erased"""
+        self._text_complete = True
+
+    def acknowledge_text_added(self):
+        """Call when text is added at the current position"""
+        self._text_complete = False
+
     def get_current_position(self):
         """Returns the current usable position
 
-- 
2.43.0


From 467dba602a4959ba47f46f49b268c627e0e572e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:15 +0000
Subject: [PATCH 43/64] fix: SCC: a mid-row code does not add a space to the
 previous row (C05)

---
 pycaption/scc/specialized_collections.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycaption/scc/specialized_collections.py b/pycaption/scc/specialized_collections.py
index 2349d5a..d429356 100644
--- a/pycaption/scc/specialized_collections.py
+++ b/pycaption/scc/specialized_collections.py
@@ -454,6 +454,7 @@ class InstructionNodeCreator:
             command in MID_ROW_CODES
             and prev_text_node
             and not prev_node_is_break
+            and not self._position_tracer.is_repositioning_required()
             and not prev_text_node.text[-1].isspace()
             and command not in PAC_TAB_OFFSET_COMMANDS
             and not next_is_punctuation
-- 
2.43.0


From e5e513d5a7949cb99ac02a28f170bbd30a406e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:58 +0000
Subject: [PATCH 44/64] fix: SCC: a mid-row code adds no space to the text of
 another row (C05)

---
 pycaption/scc/specialized_collections.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycaption/scc/specialized_collections.py b/pycaption/scc/specialized_collections.py
index d429356..4a4bc0a 100644
--- a/pycaption/scc/specialized_collections.py
+++ b/pycaption/scc/specialized_collections.py
@@ -447,13 +447,14 @@ class InstructionNodeCreator:
         next_is_punctuation = next_command and next_command[:2] in punctuation
         prev_text_node = self.get_previous_text_node()
         prev_node_is_break = prev_text_node is not None and any(
-            x.is_explicit_break()
+            x.is_explicit_break() or x.requires_repositioning()
             for x in self._collection[self._collection.index(prev_text_node):]
         )
         if (
             command in MID_ROW_CODES
             and prev_text_node
             and not prev_node_is_break
+            and not self._position_tracer.is_linebreak_required()
             and not self._position_tracer.is_repositioning_required()
             and not prev_text_node.text[-1].isspace()
             and command not in PAC_TAB_OFFSET_COMMANDS
-- 
2.43.0


From a6d09ea64749b31fea2b0bc33f1e913faef38bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:45 +0000
Subject: [PATCH 45/64] fix: SCC: backspaces do not erase characters of another
 row (C05)

---
 pycaption/scc/specialized_collections.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pycaption/scc/specialized_collections.py b/pycaption/scc/specialized_collections.py
index 4a4bc0a..f279401 100644
--- a/pycaption/scc/specialized_collections.py
+++ b/pycaption/scc/specialized_collections.py
@@ -446,16 +446,10 @@ class InstructionNodeCreator:
         punctuation = ["ae", "a1", "bf", "2c"]
         next_is_punctuation = next_command and next_command[:2] in punctuation
         prev_text_node = self.get_previous_text_node()
-        prev_node_is_break = prev_text_node is not None and any(
-            x.is_explicit_break() or x.requires_repositioning()
-            for x in self._collection[self._collection.index(prev_text_node):]
-        )
         if (
             command in MID_ROW_CODES
             and prev_text_node
-            and not prev_node_is_break
-            and not self._position_tracer.is_linebreak_required()
-            and not self._position_tracer.is_repositioning_required()
+            and self._is_on_current_row(prev_text_node)
             and not prev_text_node.text[-1].isspace()
             and command not in PAC_TAB_OFFSET_COMMANDS
             and not next_is_punctuation
@@ -545,8 +539,8 @@ class InstructionNodeCreator:
         node = self.get_previous_text_node()
         # in case of no previous text nodes or
         # if the backspace is required while no character
-        # do nothing
-        if node is None:
+        # (on the current row), do nothing
+        if node is None or not self._is_on_current_row(node):
             return
         last_char = node.text[-1]
         delete_previous_condition = (
@@ -557,6 +551,17 @@ class InstructionNodeCreator:
         if delete_previous_condition:
             node.text = node.text[:-1]
 
+    def _is_on_current_row(self, text_node):
+        """Whether the next characters will be on the row of `text_node`"""
+        return not (
+            self._position_tracer.is_linebreak_required()
+            or self._position_tracer.is_repositioning_required()
+            or any(
+                x.is_explicit_break() or x.requires_repositioning()
+                for x in self._collection[self._collection.index(text_node):]
+            )
+        )
+
     def get_previous_text_node(self):
         for node in self._collection[::-1]:
             if node.is_text_node() and node.text:
-- 
2.43.0


From 16d8e2c9328793a6a4684c468d1b04836f4e5c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:32 +0000
Subject: [PATCH 46/64] fix: SCC: a caption erased before time zero has ended
 (C06)

---
 pycaption/scc/__init__.py                |  9 ++++-----
 pycaption/scc/specialized_collections.py | 13 +++++++------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index 4a11f6c..ccbaebb 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -158,7 +158,7 @@ def fix_last_captions_without_ending(caption_list):
     """
 
     for caption in reversed(caption_list):
-        if caption.end:
+        if caption.end is not None:
             return
         caption.end = caption.start + 4 * 1000 * 1000
 
@@ -244,6 +244,7 @@ class SCCReader(BaseReader):
 
         self._flush_implicit_buffers(self.buffer_dict.active_key)
 
+        fix_last_captions_without_ending(self.caption_stash._collection)
         captions = CaptionSet({lang: self.caption_stash.get_all()})
 
         # check captions for incorrect lengths
@@ -286,8 +287,6 @@ class SCCReader(BaseReader):
 
         if captions.is_empty():
             raise CaptionReadNoCaptions("empty caption file")
-        else:
-            fix_last_captions_without_ending(captions.get_captions(lang))
 
         return captions
 
@@ -463,7 +462,7 @@ class SCCReader(BaseReader):
                 self._pop_on(end=self.time)
             if self.buffer.is_empty():
                 return
-            cue = PopOnCue(buffer=deepcopy(self.buffer), start=self.time, end=0)
+            cue = PopOnCue(buffer=deepcopy(self.buffer), start=self.time, end=None)
             self.pop_ons_queue.appendleft(cue)
             self.buffer = self.node_creator_factory.new_creator()
             self.node_creator_factory.position_tracker.acknowledge_text_complete()
@@ -531,7 +530,7 @@ class SCCReader(BaseReader):
         # try to insert the proper ending time for the previous caption
         self.caption_stash.correct_last_timing(self.time, force=True)
 
-    def _pop_on(self, end=0):
+    def _pop_on(self, end=None):
         pop_on_cue = self.pop_ons_queue.pop()
         self.caption_stash.create_and_store(pop_on_cue.buffer, pop_on_cue.start, end)
 
diff --git a/pycaption/scc/specialized_collections.py b/pycaption/scc/specialized_collections.py
index f279401..0df7f33 100644
--- a/pycaption/scc/specialized_collections.py
+++ b/pycaption/scc/specialized_collections.py
@@ -36,7 +36,8 @@ class PreCaption:
     used to eventually instantiate an actual Caption object.
     """
 
-    def __init__(self, start=0, end=0):
+    def __init__(self, start=0, end=None):
+        # An end of None means that it is not known (yet)
         self.start = start
         self.end = end
         self.nodes = []
@@ -111,7 +112,7 @@ class TimingCorrectingCaptionList(list):
         new_caption = new_captions[0]
 
         if batch and (
-            batch[-1].end == 0
+            batch[-1].end is None
             or new_caption.start - batch[-1].end < 5 * MICROSECONDS_PER_CODEWORD + 1
         ):
             for caption in batch:
@@ -195,7 +196,7 @@ class CaptionCreator:
         if force:
             # Select all last captions
             captions_to_correct = self._still_editing
-        elif self._still_editing[-1].end == 0:
+        elif self._still_editing[-1].end is None:
             # Only select the last captions if they haven't gotten their
             # end time set yet
             captions_to_correct = self._still_editing
@@ -205,7 +206,7 @@ class CaptionCreator:
         for caption in captions_to_correct:
             caption.end = end_time
 
-    def create_and_store(self, node_buffer, start, end=0):
+    def create_and_store(self, node_buffer, start, end=None):
         """Interpreter method, will convert the buffer into one or more Caption
         objects, storing them internally.
 
@@ -217,8 +218,8 @@ class CaptionCreator:
 
         :type start: float
         :param start: the start time in microseconds
-        :type end: float
-        :param end: the end time in microseconds
+        :type end: float | None
+        :param end: the end time in microseconds, None if it is not known
         """
         if node_buffer.is_empty():
             return
-- 
2.43.0


From 5671a64eeaf70aaeeae7a9372170e52e03de7e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:43 +0000
Subject: [PATCH 47/64] fix: SCC: report the long lines of all captions that
 share a start time (C15)

---
 pycaption/scc/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index ccbaebb..85b12d5 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -255,10 +255,7 @@ class SCCReader(BaseReader):
             text_too_long = [
                 line for line in caption_text.split("\n") if len(line) > 32
             ]
-            if caption_start in lines_too_long:
-                lines_too_long[caption_start] = text_too_long
-            else:
-                lines_too_long[caption_start].extend(text_too_long)
+            lines_too_long[caption_start].extend(text_too_long)
 
         msg = ""
         if bool(lines_too_long.keys()):
-- 
2.43.0


From abf00a50bd3368c6f58af2a1e5e705620fa9695a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:06 +0000
Subject: [PATCH 48/64] fix: SCC writer did not send the first caption ahead of
 its start time

---
 pycaption/scc/__init__.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index 85b12d5..f20e2c1 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -560,12 +560,11 @@ class SCCWriter(BaseWriter):
         for index, (code, start, end) in enumerate(codes):
             code_words = len(code) / 5 + 8
             code_time_microseconds = code_words * MICROSECONDS_PER_CODEWORD
-            code_start = start - code_time_microseconds
-            if index == 0:
-                continue
-            previous_code, previous_start, previous_end = codes[index - 1]
-            if previous_end + 3 * MICROSECONDS_PER_CODEWORD >= code_start:
-                codes[index - 1] = (previous_code, previous_start, None)
+            code_start = max(0, start - code_time_microseconds)
+            if index > 0:
+                previous_code, previous_start, previous_end = codes[index - 1]
+                if previous_end + 3 * MICROSECONDS_PER_CODEWORD >= code_start:
+                    codes[index - 1] = (previous_code, previous_start, None)
             codes[index] = (code, code_start, end)
 
         # PASS 3:
-- 
2.43.0


From 4878ad0311c80e8c25d68f48f56649e6a04f16cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:34 +0000
Subject: [PATCH 49/64] fix: SCC writer broke rows after hyphens and not only
 at spaces

---
 pycaption/scc/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index f20e2c1..bc93621 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -584,7 +584,9 @@ class SCCWriter(BaseWriter):
     def _layout_line(caption):
         caption_text = "".join(caption.get_text_nodes())
         inner_lines = caption_text.split("\n")
-        inner_lines_laid_out = [textwrap.fill(x, 32) for x in inner_lines]
+        inner_lines_laid_out = [
+            textwrap.fill(x, 32, break_on_hyphens=False) for x in inner_lines
+        ]
         return "\n".join(inner_lines_laid_out)
 
     @staticmethod
-- 
2.43.0


From b7a433ebed51684b9f9541d830c821c3856d58a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:57 +0000
Subject: [PATCH 50/64] fix: caption sets and captions created without styles
 shared one dictionary

---
 pycaption/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycaption/base.py b/pycaption/base.py
index c1cdd35..2b0d37b 100644
--- a/pycaption/base.py
+++ b/pycaption/base.py
@@ -175,7 +175,7 @@ class Caption:
     for its display.
     """
 
-    def __init__(self, start, end, nodes, style={}, layout_info=None):
+    def __init__(self, start, end, nodes, style=None, layout_info=None):
         """
         Initialize the Caption object
         :param start: The start time in microseconds
@@ -203,7 +203,7 @@ class Caption:
         self.start = start
         self.end = end
         self.nodes = nodes
-        self.style = style
+        self.style = {} if style is None else style
         self.layout_info = layout_info
 
     def is_empty(self):
@@ -306,14 +306,14 @@ class CaptionSet:
     by all the children.
     """
 
-    def __init__(self, captions, styles={}, layout_info=None):
+    def __init__(self, captions, styles=None, layout_info=None):
         """
         :param captions: A dictionary of the format {'language': CaptionList}
         :param styles: A dictionary with CSS-like styling rules
         :param Layout layout_info: A Layout object with the positioning info
         """
         self._captions = captions
-        self._styles = styles
+        self._styles = {} if styles is None else styles
         self.layout_info = layout_info
 
     def set_captions(self, lang, captions):
-- 
2.43.0


From 452176937e796da28cb282fbd4d61c1de98c8e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:58 +0000
Subject: [PATCH 51/64] fix: SCC reader objects kept the state of the last
 document read

---
 pycaption/scc/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index bc93621..d2a9eb6 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -170,6 +170,10 @@ class SCCReader(BaseReader):
     """
 
     def __init__(self, *args, **kw):
+        self._reset()
+
+    def _reset(self):
+        """Erases everything that was learned from the last document read"""
         self.caption_stash = CaptionCreator()
         self.time_translator = _SccTimeTranslator()
 
@@ -233,6 +237,7 @@ class SCCReader(BaseReader):
         if not isinstance(content, str):
             raise InvalidInputError("The content is not a unicode string.")
 
+        self._reset()
         self.simulate_roll_up = simulate_roll_up
         self.time_translator.offset = offset * 1000000
         # split lines
-- 
2.43.0


From 959b0cb6a5d8b6fcf9973bb80a71536da2a5a280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:27 +0000
Subject: [PATCH 52/64] fix: DFXP and SAMI writers carried an open span over to
 the next caption set

---
 pycaption/dfxp/base.py   | 2 ++
 pycaption/dfxp/extras.py | 2 ++
 pycaption/sami.py        | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 9adc90f..0401f6e 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -339,6 +339,8 @@ class DFXPWriter(BaseWriter):
 
         :rtype: str
         """
+        # a span that the last caption set written left open is not of this one
+        self.open_span = False
         dfxp = BeautifulSoup(DFXP_BASE_MARKUP, 'lxml-xml')
 
         langs = caption_set.get_languages()
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 5fa4b2e..a14417e 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -105,6 +105,8 @@ class LegacyDFXPWriter(BaseWriter):
         caption_set = merge_concurrent_captions(caption_set)
         _make_style_ids_valid(caption_set)
 
+        # a span that the last caption set written left open is not of this one
+        self.open_span = False
         dfxp = BeautifulSoup(LEGACY_DFXP_BASE_MARKUP, 'lxml-xml')
         dfxp.find('tt')['xml:lang'] = "en"
 
diff --git a/pycaption/sami.py b/pycaption/sami.py
index 979a2c3..a734f7f 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -386,6 +386,8 @@ class SAMIWriter(BaseWriter):
 
     def write(self, caption_set):
         caption_set = deepcopy(caption_set)
+        # a span that the last caption set written left open is not of this one
+        self.open_span = False
         sami = BeautifulSoup(SAMI_BASE_MARKUP, "lxml-xml")
 
         caption_set.layout_info = self._relativize_and_fit_to_screen(
-- 
2.43.0


From ac2a00c67d10f6a4f783a1199d93d18049b99a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:54 +0000
Subject: [PATCH 53/64] fix: SAMI writer set texts apart although no span was
 written around them

---
 pycaption/sami.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index a734f7f..4723071 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -597,9 +597,18 @@ class SAMIWriter(BaseWriter):
 
     @staticmethod
     def _has_nested_spans(nodes):
-        styles = [node for node in nodes if node.type_ == CaptionNode.STYLE]
-        return any(first.start and second.start
-                   for first, second in zip(styles, styles[1:]))
+        open_styles = []
+        for node in nodes:
+            if node.type_ != CaptionNode.STYLE:
+                continue
+            if not node.start:
+                open_styles = open_styles[:-1]
+                continue
+            # A style without any rules isn't written as a span
+            if node.content and any(open_styles):
+                return True
+            open_styles.append(bool(node.content))
+        return False
 
     def _recreate_line_style(self, line, node, spaced=False):
         if self.open_span:
-- 
2.43.0


From 745b2ac05281c47dee56304afaf0f4c45b7da772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:26 +0000
Subject: [PATCH 54/64] fix: DFXP reader decoded &apos; in CDATA sections, and
 ended attribute values at it

---
 pycaption/dfxp/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 0401f6e..6ac22a6 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -583,8 +583,11 @@ class LayoutAwareDFXPParser(BeautifulSoup):
         http://www.crummy.com/software/BeautifulSoup/bs4/doc/#installing-a-parser
         """
 
-        # Work around for lack of '&apos;' support in html.parser
-        markup = markup.replace("&apos;", "'")
+        # Work around for lack of '&apos;' support in html.parser. In a CDATA
+        # section it is no reference
+        markup = re.sub(
+            r"(<!\[CDATA\[.*?\]\]>)|&apos;",
+            lambda match: match.group(1) or "&#39;", markup, flags=re.DOTALL)
 
         super().__init__(
             markup, features, builder, parse_only, from_encoding, **kwargs)
-- 
2.43.0


From e96617038b39f38a8637d1d1e06b3385829def81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:35 +0000
Subject: [PATCH 55/64] fix: SAMI writer filed captions under another language
 when their class is named as that language

---
 pycaption/sami.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 4723071..6c1f16e 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -514,9 +514,13 @@ class SAMIWriter(BaseWriter):
 
     def _recreate_p_lang(self, caption, lang, captions):
         try:
-            style = captions.get_style(caption.style['class'])
-            if style.get('lang') == lang:
-                return caption.style['class']
+            class_ = caption.style['class']
+            # a class named as another language is the class of that language
+            if (captions.get_style(class_).get('lang') == lang
+                    and (class_ == lang
+                         or class_.lower() not in
+                         [x.lower() for x in captions.get_languages()])):
+                return class_
         except KeyError:
             pass
         return lang
-- 
2.43.0


From 5073ff7295dd94bcdcde9a7cef042324f830bd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:22 +0000
Subject: [PATCH 56/64] fix: SCC null padding before a preamble address code
 does not fix the position of the text

---
 pycaption/scc/specialized_collections.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycaption/scc/specialized_collections.py b/pycaption/scc/specialized_collections.py
index 0df7f33..deac002 100644
--- a/pycaption/scc/specialized_collections.py
+++ b/pycaption/scc/specialized_collections.py
@@ -324,7 +324,8 @@ class InstructionNodeCreator:
 
         :param chars: tuple containing text (Unicode string)
         """
-        if not chars:
+        # null characters are padding, they are not displayed
+        if not any(chars):
             return
 
         current_position = self._position_tracer.get_current_position()
@@ -364,8 +365,7 @@ class InstructionNodeCreator:
             self._position_tracer.acknowledge_position_changed()
 
         node.add_chars(*chars)
-        if any(chars):
-            self._position_tracer.acknowledge_text_added()
+        self._position_tracer.acknowledge_text_added()
 
     @staticmethod
     def get_style_for_command(command):
-- 
2.43.0


From 205c2d4785cb83a1387c06345150dd33f5d64786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:27 +0000
Subject: [PATCH 57/64] fix: SCC erase non-displayed memory does not erase
 paint-on and roll-up text

---
 pycaption/scc/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index d2a9eb6..33c144c 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -315,6 +315,7 @@ class SCCReader(BaseReader):
             if not self.buffer.is_empty():
                 self.caption_stash.create_and_store(self.buffer, self.time)
                 self.buffer = self.node_creator_factory.new_creator()
+                self.node_creator_factory.position_tracker.acknowledge_text_complete()
 
     def _translate_line(self, line):
         # ignore blank lines
@@ -451,10 +452,12 @@ class SCCReader(BaseReader):
             self.roll_rows = []
             self.time = self.time_translator.get_time()
 
-        # clear pop_on buffer
+        # clear pop_on buffer [Erase Non-displayed Memory]; what is painted on
+        # or rolled up is in the displayed memory
         elif word == "94ae":
-            self.buffer = self.node_creator_factory.new_creator()
-            self.node_creator_factory.position_tracker.acknowledge_text_complete()
+            self.buffer_dict["pop"] = self.node_creator_factory.new_creator()
+            if self.buffer_dict.active_key == "pop":
+                self.node_creator_factory.position_tracker.acknowledge_text_complete()
 
         # display pop_on buffer [End Of Caption]
         elif word == "942f":
-- 
2.43.0


From c55e67327db36c91cd2b87ffdf6803d57e4ad3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:34 +0000
Subject: [PATCH 58/64] fix: DFXP writers drop the references between styles
 that are sorted before their target

---
 pycaption/dfxp/base.py   | 20 +++++++++++++++++++-
 pycaption/dfxp/extras.py |  3 ++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 6ac22a6..0ed1ced 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -371,7 +371,7 @@ class DFXPWriter(BaseWriter):
                         node.layout_info)
 
         # Create the styles in the <styling> section, or a default style.
-        for style_id, style in caption_set.get_styles():
+        for style_id, style in _sort_styles_by_reference(caption_set):
             if style != {}:
                 dfxp = self._recreate_styling_tag(style_id, style, dfxp)
         if not caption_set.get_styles():
@@ -1238,6 +1238,24 @@ def _make_style_ids_valid(caption_set):
                     node.content = convert(node.content)
 
 
+def _sort_styles_by_reference(caption_set):
+    """Returns the (id, style) pairs of the caption set, each style after the
+    one it refers to: a reference is only written if its target already is.
+
+    :type caption_set: CaptionSet
+    :rtype: list
+    """
+    styles = dict(caption_set.get_styles())
+    result = {}
+    for id_ in styles:
+        chain = []
+        while id_ in styles and id_ not in result and id_ not in chain:
+            chain.append(id_)
+            id_ = styles[id_].get('class')
+        result.update((id_, styles[id_]) for id_ in reversed(chain))
+    return list(result.items())
+
+
 def _create_span(attributes):
     """Returns the start tag of a <span>
 
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index a14417e..ef41647 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -7,6 +7,7 @@ from bs4 import BeautifulSoup
 
 from .base import (
     DFXPWriter, DFXP_DEFAULT_REGION, _make_style_ids_valid,
+    _sort_styles_by_reference,
 )
 from ..base import BaseWriter, CaptionNode, merge_concurrent_captions
 from ..utils import (
@@ -110,7 +111,7 @@ class LegacyDFXPWriter(BaseWriter):
         dfxp = BeautifulSoup(LEGACY_DFXP_BASE_MARKUP, 'lxml-xml')
         dfxp.find('tt')['xml:lang'] = "en"
 
-        for style_id, style in caption_set.get_styles():
+        for style_id, style in _sort_styles_by_reference(caption_set):
             if style != {}:
                 dfxp = self._recreate_styling_tag(style_id, style, dfxp)
         if not caption_set.get_styles():
-- 
2.43.0


From e49e68ddac3922a27c0b9ecb130056670fe7eca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:50 +0000
Subject: [PATCH 59/64] fix: SAMI writer loses the styles a style refers to

---
 pycaption/sami.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 6c1f16e..161e9e2 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -529,6 +529,7 @@ class SAMIWriter(BaseWriter):
         stylesheet = '<!--'
 
         for attr, value in caption_set.get_styles():
+            value = self._resolve_references(value, caption_set)
             if value != {}:
                 # the class of a language has the layout of that language
                 layout_info = caption_set.layout_info
@@ -551,6 +552,24 @@ class SAMIWriter(BaseWriter):
 
         return stylesheet + '   -->'
 
+    def _resolve_references(self, style, caption_set, seen=()):
+        """Returns the rules of a style, with those of the styles it refers to:
+        a CSS class can't refer to another one.
+
+        :rtype: dict
+        """
+        rules = {}
+        for class_ in style.get('classes') or [style.get('class')]:
+            if class_ not in seen:
+                rules.update(self._resolve_references(
+                    caption_set.get_style(class_), caption_set,
+                    seen + (class_,)))
+        rules.pop('lang', None)
+        rules.update(style)
+        rules.pop('class', None)
+        rules.pop('classes', None)
+        return rules
+
     def _recreate_style_block(self, target, rules, layout_info):
         """
         :param target: A unicode string representing the target of the styling
-- 
2.43.0


From 02a298d9b2768064faab7c62ca235326ba079ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:54 +0000
Subject: [PATCH 60/64] fix: WebVTT writer recurses endlessly into styles that
 refer to themselves

---
 pycaption/webvtt.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index b50d12e..bdc6814 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -241,7 +241,7 @@ class WebVTTWriter(BaseWriter):
         else:
             return ["", ""]
 
-    def _calculate_resulting_style(self, style, caption_set):
+    def _calculate_resulting_style(self, style, caption_set, seen=()):
         resulting_style = {}
 
         style_classes = []
@@ -251,10 +251,14 @@ class WebVTTWriter(BaseWriter):
             style_classes = [style["class"]]
 
         for style_class in style_classes:
+            if style_class in seen:
+                continue
             sub_style = caption_set.get_style(style_class).copy()
             # Recursively resolve class attributes and calculate style
             resulting_style.update(
-                self._calculate_resulting_style(sub_style, caption_set)
+                self._calculate_resulting_style(
+                    sub_style, caption_set, seen + (style_class,)
+                )
             )
 
         resulting_style.update(style)
-- 
2.43.0


From dfe7ab5e1b2887e8bd1486caff659b8d36258894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:30 +0000
Subject: [PATCH 61/64] fix: DFXP writers drop references to several styles

---
 pycaption/dfxp/base.py   | 46 +++++++++++++++++++++++++++-------------
 pycaption/dfxp/extras.py |  9 ++++----
 2 files changed, 36 insertions(+), 19 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 0ed1ced..68785d3 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -1220,12 +1220,14 @@ def _make_style_ids_valid(caption_set):
             new_ids[id_] = new_id
 
     def convert(content):
-        if not content or 'class' not in content:
+        if not content or not _get_classes(content):
             return content
-        content = dict(content)
-        class_ = content.pop('class')
-        if class_ in new_ids:
-            content['class'] = new_ids[class_]
+        classes = [new_ids[class_] for class_ in _get_classes(content)
+                   if class_ in new_ids]
+        content = {key: value for key, value in content.items()
+                   if key not in ('class', 'classes')}
+        if classes:
+            content.update({'classes': classes, 'class': ' '.join(classes)})
         return content
 
     caption_set.set_styles(
@@ -1239,23 +1241,36 @@ def _make_style_ids_valid(caption_set):
 
 
 def _sort_styles_by_reference(caption_set):
-    """Returns the (id, style) pairs of the caption set, each style after the
-    one it refers to: a reference is only written if its target already is.
+    """Returns the (id, style) pairs of the caption set, each style after those
+    it refers to: a reference is only written if its target already is.
 
     :type caption_set: CaptionSet
     :rtype: list
     """
     styles = dict(caption_set.get_styles())
     result = {}
+
+    def add(id_, referring=()):
+        if id_ in styles and id_ not in result and id_ not in referring:
+            for class_ in _get_classes(styles[id_]):
+                add(class_, referring + (id_,))
+            result[id_] = styles[id_]
+
     for id_ in styles:
-        chain = []
-        while id_ in styles and id_ not in result and id_ not in chain:
-            chain.append(id_)
-            id_ = styles[id_].get('class')
-        result.update((id_, styles[id_]) for id_ in reversed(chain))
+        add(id_)
     return list(result.items())
 
 
+def _get_classes(content):
+    """Returns the names of the styles that a style refers to
+
+    :type content: dict
+    :rtype: list
+    """
+    return content.get('classes') or (
+        [content['class']] if 'class' in content else [])
+
+
 def _create_span(attributes):
     """Returns the start tag of a <span>
 
@@ -1270,9 +1285,10 @@ def _create_span(attributes):
 def _recreate_style(content, dfxp):
     dfxp_style = {}
 
-    if 'class' in content:
-        if dfxp.find("style", {"xml:id": content['class']}):
-            dfxp_style['style'] = content['class']
+    classes = [class_ for class_ in _get_classes(content)
+               if dfxp.find("style", {"xml:id": class_})]
+    if classes:
+        dfxp_style['style'] = ' '.join(classes)
     if 'text-align' in content:
         dfxp_style['tts:textAlign'] = content['text-align']
     if content.get('italics'):
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index ef41647..23adaed 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -6,7 +6,7 @@ from copy import deepcopy
 from bs4 import BeautifulSoup
 
 from .base import (
-    DFXPWriter, DFXP_DEFAULT_REGION, _make_style_ids_valid,
+    DFXPWriter, DFXP_DEFAULT_REGION, _get_classes, _make_style_ids_valid,
     _sort_styles_by_reference,
 )
 from ..base import BaseWriter, CaptionNode, merge_concurrent_captions
@@ -242,9 +242,10 @@ class LegacyDFXPWriter(BaseWriter):
         if 'region' in content:
             if dfxp.find('region', {'xml:id': content['region']}):
                 dfxp_style['region'] = content['region']
-        if 'class' in content:
-            if dfxp.find("style", {"xml:id": content['class']}):
-                dfxp_style['style'] = content['class']
+        classes = [class_ for class_ in _get_classes(content)
+                   if dfxp.find("style", {"xml:id": class_})]
+        if classes:
+            dfxp_style['style'] = ' '.join(classes)
         if 'text-align' in content:
             dfxp_style['tts:textAlign'] = content['text-align']
         if content.get('italics'):
-- 
2.43.0


From aed24aeb99361ec5b595c231ce62e676c79f6dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:03 +0000
Subject: [PATCH 62/64] fix: SAMI spans with several classes lose all but the
 first

---
 pycaption/sami.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 161e9e2..0471399 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -307,8 +307,11 @@ class SAMIReader(BaseReader):
 
         if 'class' in css_attrs:
             attrs['class'] = css_attrs['class'][0].lower()
+            if len(css_attrs['class']) > 1:
+                attrs['classes'] = [x.lower() for x in css_attrs['class']]
         if 'id' in css_attrs:
             attrs['class'] = css_attrs['id'].lower()
+            attrs.pop('classes', None)
         if 'style' in css_attrs:
             styles = css_attrs['style'].split(';')
             attrs.update(self._translate_style(attrs, styles))
@@ -646,8 +649,10 @@ class SAMIWriter(BaseWriter):
     def _recreate_span(self, line, content):
         style = ''
         klass = ''
-        if 'class' in content:
-            klass += f' class={quoteattr(content["class"])}'
+        classes = content.get('classes') or (
+            [content['class']] if 'class' in content else [])
+        if classes:
+            klass += f' class={quoteattr(" ".join(classes))}'
 
         for attr, value in list(self._recreate_style(content).items()):
             style += f'{attr}:{value};'
-- 
2.43.0


From 5a9dd77d7ce8a92401519d7fb42d673b79826083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:28 +0000
Subject: [PATCH 63/64] fix: skip comments and at-rules in the style sheet of a
 SAMI document

---
 pycaption/sami.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 0471399..a4e95a9 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -825,6 +825,9 @@ class SAMIParser(HTMLParser):
         style_sheet = {}
 
         for rule in sheet:
+            # comments and at-rules have no selector
+            if rule.type != rule.STYLE_RULE:
+                continue
             new_style = {}
             selector = rule.selectorText.lower()
             if selector[0] in ['#', '.']:
-- 
2.43.0


From e9dbacf7e3b9056f266648c401bd66a69f62b989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:37 +0000
Subject: [PATCH 64/64] fix: metadata elements inside a DFXP paragraph are not
 caption text

---
 pycaption/dfxp/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 68785d3..876bdb0 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -251,6 +251,9 @@ class DFXPReader(BaseReader):
         elif tag.name == 'span':
             # convert span
             self._convert_span_to_nodes(tag)
+        elif tag.name == 'metadata' or tag.name.startswith('ttm:'):
+            # metadata describe the content, they are not displayed
+            return
         else:
             # recursively call function for any children elements
             for a in tag.contents:
-- 
2.43.0

