From 8a6e49d266b109c07b60ef2a7a1e409006c5c0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 01/80] fix: Range with the end before the start is empty, a
 Range of a single node contains it

Range.nodes() yielded the start node of an empty range (for example the
selection of only whitespace between two notes), and Range.from_nodes()
returned an empty range when start and end node are the same node.
---
 quickly/node.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/quickly/node.py b/quickly/node.py
index f7bfa95..299213f 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -731,7 +731,13 @@ class Range(Common):
         belong to the same tree.
 
         """
-        if not from_root and start_node and end_node:
+        if not from_root and start_node and start_node is end_node and start_node.parent:
+            # one single node, it should be in the range
+            ancestor = start_node.parent
+            start_trail = [ancestor.index(start_node)]
+            end_trail = start_trail[:]
+            ok = True
+        elif not from_root and start_node and end_node:
             ancestor, start_trail, end_trail = start_node.common_ancestor_with_trail(end_node)
             ok = ancestor is not None
         elif start_node:
@@ -785,6 +791,8 @@ class Range(Common):
 
     def __bool__(self):
         """False if the range is empty."""
+        if self.start_trail and self.end_trail is not None and self.start_trail > self.end_trail:
+            return False
         level = self._stack[0]
         return level.start <= level.end
 
@@ -1136,6 +1144,8 @@ class Range(Common):
         of the just yielded node will not be yielded.
 
         """
+        if not self:
+            return
         self._goto_trail(self.start_trail)
         if self.start_trail:
             node = self.node
-- 
2.43.0


From ce453fa69b370a51aba701b5c2279bfaaabd4780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:23 +0000
Subject: [PATCH 02/80] fix: keep the boundaries and the iteration of a Range
 right when nodes are deleted or replaced

Deleting the current node in a loop over a Range skipped the next node;
deleting the last node of a range let the next node come in the range or
left the range pointing past the end of the node.
---
 quickly/node.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/quickly/node.py b/quickly/node.py
index 299213f..e5f23d7 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -907,14 +907,14 @@ class Range(Common):
                 level.index = -1
                 level.end = -1
                 if level.start_trail:
-                    level.start_trail[level.depth:] = [0]
+                    del level.start_trail[level.depth:]
                 if level.end_trail:
                     del level.end_trail[level.depth:]
             else:
                 # adjust start boundary if needed
                 if index <= level.start:
                     if index + removed > level.start:
-                        level.start = index + added
+                        level.start = index
                         if adjust_start:
                             # deleted node was on the start trail, truncate
                             del level.start_trail[level.depth:]
@@ -928,12 +928,18 @@ class Range(Common):
                 # adjust end boundary
                 if index <= level.end:
                     if index + removed > level.end:
-                        level.end = index + added
+                        level.end = index + added - 1
                         if adjust_end:
                             # deleted node was on the end trail, truncate
                             del level.end_trail[level.depth:]
-                            if level.end < length:
+                            if level.end >= 0:
                                 level.end_trail.append(level.end)
+                                if not added:
+                                    # the preceding node remains completely in the range
+                                    n = level.node[level.end]
+                                    while len(n):
+                                        level.end_trail.append(len(n) - 1)
+                                        n = n[-1]
                     else:
                         level.end += added - removed
                         if adjust_end:
@@ -946,7 +952,7 @@ class Range(Common):
                 # adjust level index
                 if index <= level.index:
                     if index + removed > level.index:
-                        level.index = index + added
+                        level.index = index + added - 1
                     else:
                         level.index += added - removed
         else:
-- 
2.43.0


From 1f3b834a1d8d32377dfb948718a6381f834208ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:37 +0000
Subject: [PATCH 03/80] fix: raise ValueError for a duration string that is not
 a power of two

---
 quickly/duration.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quickly/duration.py b/quickly/duration.py
index 02b1f66..593f03e 100644
--- a/quickly/duration.py
+++ b/quickly/duration.py
@@ -223,9 +223,13 @@ def from_string(text, dotcount=None):
         dotcount = text.count('.')
     text = text.strip(' \t.')
     try:
-        log = int(text).bit_length() - 1
+        length = int(text)
     except ValueError:
         log = -1 - NAMED_DURATIONS.index(text.lstrip('\\'))
+    else:
+        log = length.bit_length() - 1
+        if length < 1 or length != 1 << log:
+            raise ValueError("invalid duration: {}".format(repr(text)))
     return duration(log, dotcount)
 
 
-- 
2.43.0


From 705a91e6d522f12883a8f7bffb99239b98599410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 04/80] fix: rotate the chromatic scale correctly for keys
 raised above b

---
 quickly/key.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/key.py b/quickly/key.py
index 0017ce5..2a762f1 100644
--- a/quickly/key.py
+++ b/quickly/key.py
@@ -166,7 +166,7 @@ def chromatic_scale(note=0, alter=0, scale=None, flats=None):
 
     alter += scale[note] - scale[0]
     notes = list(transpose(chrom_scale()))
-    semitones = int(alter * 2)
+    semitones = int(alter * 2) % 12
     return notes[-semitones:] + notes[:-semitones]  # rotate so C-based pitch is at start
 
 
-- 
2.43.0


From bc2d2a11aa52ec6471a0b0ea7a78f1d8356edad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 05/80] fix: KeySignature: repr(), flats given as a list, and
 named modes in another scale

---
 quickly/key.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quickly/key.py b/quickly/key.py
index 2a762f1..bba9e23 100644
--- a/quickly/key.py
+++ b/quickly/key.py
@@ -217,7 +217,7 @@ class KeySignature:
         self.mode = mode        #: The mode (a standard LilyPond mode name like "major" or a custom alterations list).
         self.scale = scale      #: The default scale.
         if isinstance(mode, str):
-            mode = alterations(mode_offset[mode])
+            mode = alterations(mode_offset[mode], scale)
         self.accidentals = accidentals(note, alter, mode, scale)    #: The accidentals for this key signature.
         #: The tuple of pitch values in the default scale to give a flat instead
         #: of a sharp when converting a MIDI key number to a pitch. The default
@@ -226,7 +226,7 @@ class KeySignature:
         self.flats = pitch.MAJOR_FLATS
 
     def __repr__(self):
-        p = pitch.Pitch(self.note, self.alter)
+        p = pitch.Pitch(0, self.note, self.alter)
         return "<{} note,alter={},{} ({}) mode={}>".format(type(self).__name__,
             self.note, self.alter, p, self.mode)
 
@@ -323,7 +323,7 @@ class KeySignature:
         """
         if flats is None:
             flats = self.flats
-        return self._midi_reader(flats)(key)
+        return self._midi_reader(tuple(flats))(key)
 
     @cached_method
     def _midi_reader(self, flats):
-- 
2.43.0


From 907dc398552ea91de34c5c5058e65f1e51c2cb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 06/80] fix: read the mode of a \key command from a variable

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 3d0a71f..f1b990a 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2160,7 +2160,7 @@ class Key(element.HeadElement, Music):
                 elif isinstance(n, Mode):
                     mode = n.head
                 elif isinstance(n, IdentifierRef):
-                    scope, n = n.get_value_with_scope(scope, wait)
+                    n, scope = n.get_value_with_scope(scope, wait) or (None, scope)
                     continue
                 elif isinstance(n, Scheme):
                     for n in n // scm.List:
-- 
2.43.0


From 631244eb7dadf1ff84ef7f09a407ee8ebf3cc93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 07/80] fix: TimeContext.remote_length() returns 0 if a
 variable can't be found

---
 quickly/time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/time.py b/quickly/time.py
index 05b9a0b..dc231d3 100644
--- a/quickly/time.py
+++ b/quickly/time.py
@@ -352,9 +352,9 @@ class TimeContext:
         Returns 0 if the node can't be found or is no music.
 
         """
-        node, scope = node.get_value_with_scope(self.time.scope, self.time.wait)
+        scope = self.time.scope
         while isinstance(node, lily.Reference):
-            node, scope = node.get_value_with_scope(scope, self.time.wait)
+            node, scope = node.get_value_with_scope(scope, self.time.wait) or (None, scope)
         if isinstance(node, lily.Music):
             time = type(self.time)(scope, self.time.wait)
             return node.time_length(self.enter(node, time), None)
-- 
2.43.0


From 752c88a2c813c0140248a2ce36e526be600bfd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 08/80] fix: keep per-instance whitespace settings when copying
 an element

---
 quickly/dom/element.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index aac57fa..31e2bfe 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -175,6 +175,13 @@ class Element(Node, metaclass=ElementType):
         for attribute, value in attrs.items():
             setattr(self, attribute, value)
 
+    def _space_attrs(self):
+        """Return the spacing attributes that deviate from the default."""
+        try:
+            return {'space_' + name: value for name, value in self._space.items()}
+        except AttributeError:
+            return {}
+
     def copy(self, with_children=True):
         """Copy the node, without the origin.
 
@@ -183,7 +190,7 @@ class Element(Node, metaclass=ElementType):
 
         """
         children = (n.copy() for n in self) if with_children else ()
-        return type(self)(*children, **getattr(self, '_spacing', {}))
+        return type(self)(*children, **self._space_attrs())
 
     def copy_with_origin(self, with_children=True):
         """Copy the node, with origin if available.
@@ -193,7 +200,7 @@ class Element(Node, metaclass=ElementType):
 
         """
         children = (n.copy_with_origin() for n in self) if with_children else ()
-        copy = type(self)(*children, **getattr(self, '_spacing', {}))
+        copy = type(self)(*children, **self._space_attrs())
         copy.copy_origin_from(self)
         return copy
 
@@ -920,11 +927,11 @@ class TextElement(HeadElement):
 
         """
         children = (n.copy() for n in self) if with_children else ()
-        return self._factory(self.head, *children, **getattr(self, '_spacing', {}))
+        return self._factory(self.head, *children, **self._space_attrs())
 
     def copy_with_origin(self, with_children=True):
         children = (n.copy_with_origin() for n in self) if with_children else ()
-        copy = self._factory(self.head, *children, **getattr(self, '_spacing', {}))
+        copy = self._factory(self.head, *children, **self._space_attrs())
         copy.copy_origin_from(self)
         return copy
 
-- 
2.43.0


From 326c47470654cceb1ea8b8ede1dd430e06fbd706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 09/80] fix: keep the origin of the closing brace of a \score
 block

---
 quickly/lang/lilypond.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 23b6996..2f195e9 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -103,8 +103,6 @@ class LilyPondTransform(base.Transform):
 
     def score(self, items):
         """A Score element."""
-        tail = (items.pop(),) if items[-1] == '}' else ()
-        head = items[:2]
         return self.create_block(lily.Score, items, music=True)
 
     def header(self, items):
-- 
2.43.0


From 9fb54060485e061dd25740dbd4c9b4ffa833d454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 10/80] fix: transform LilyPond music in Html of which the tag
 is not closed

---
 quickly/lang/lilypond.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 2f195e9..ef6f375 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -330,12 +330,12 @@ class LilyPondTransform(base.Transform):
         Returns a two-tuple: ``([list of elements], tail_origin)``.
 
         """
+        tail_origin = ()
+        close_tag = None
         if items:
             if items[-1] == '/>':
                 tail_origin = (items.pop(),)
-                close_tag = None
             elif items.peek(-3, a.Delimiter, a.Name.Tag, a.Delimiter):
-                tail_origin = ()
                 close_tag = self.factory(htm.CloseTag, items[-3:-2], items[-1:], self.factory(htm.TagName, items[-2:-1]))
                 del items[-3:]
         nodes = [lily.Document(*self.handle_assignments(self.create_music(items)))]
-- 
2.43.0


From f3d0a8e23a1c5f91bcf6a946db11c7670c0b9b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 11/80] fix: transform Latex documents with braces inside math

---
 quickly/lang/latex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/lang/latex.py b/quickly/lang/latex.py
index f33f8ba..59c35f2 100644
--- a/quickly/lang/latex.py
+++ b/quickly/lang/latex.py
@@ -166,11 +166,11 @@ class LatexTransform(base.Transform):
         return nodes
 
     _math_mapping = element.head_mapping(
-        tex.MathInlineParen, tex.MathInlineDollar, tex.MathDisplayBracket,
+        tex.Brace, tex.MathInlineParen, tex.MathInlineDollar, tex.MathDisplayBracket,
         tex.MathDisplayDollar)
 
     def math(self, items):
-        """Process the ``math`` context; return a Math node."""
+        """Process the ``math`` context; return a Math (or Brace) node."""
         head = items[:1]
         cls = self._math_mapping[head[0].text]
         tail = (items.pop(),) if len(items) > 1 and items[-1] == cls.tail else ()
-- 
2.43.0


From 3cac2eb6662ef129073b7e74f72c1999c4c6c9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 12/80] fix: transform a Latex lilypond environment with
 options after whitespace, or only options

---
 quickly/lang/latex.py    | 2 +-
 quickly/lang/lilypond.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/lang/latex.py b/quickly/lang/latex.py
index 59c35f2..859b925 100644
--- a/quickly/lang/latex.py
+++ b/quickly/lang/latex.py
@@ -62,7 +62,7 @@ class Latex(parce.lang.tex.Latex):
         This lexicon never creates a context.
 
         """
-        yield r'(?=\s*\[)', skip, -1, cls.option
+        yield r'\s*(?=\[)', skip, -1, cls.option
         yield default_target, -1
 
 
diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index ef6f375..68d7a81 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -363,7 +363,7 @@ class LilyPondTransform(base.Transform):
             end = self.factory(tex.Command, items[-4:-3])
             end.append(self.factory(tex.EnvironmentName, items[-3:]))
             items = items[:-4]
-        elif items[-1] == '}' and items[-1].action is a.Delimiter.Brace:
+        elif items and items[-1] == '}' and items[-1].action is a.Delimiter.Brace:
             # short form \lilypond { ... }
             tail_origin = (items.pop(),)
         nodes = [lily.Document(*self.handle_assignments(self.create_music(items)))]
-- 
2.43.0


From 09b04ff1d9c3a7ea061fe9ffee002b8264cc5f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 13/80] fix: transform a chord modifier that does not follow a
 note

---
 quickly/lang/lilypond.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 68d7a81..90635b8 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -1124,7 +1124,8 @@ class MusicBuilder:
     @_context("chord_modifier")
     def chord_modifier(self, obj):
         """Called with the result of the ``chord_modifier`` context."""
-        self._modifier[-1].extend(obj)
+        if self._modifier:
+            self._modifier[-1].extend(obj)
 
     @_context("repeat", "lyricsto", "lyricmode", "drummode", "notemode",
               "chordmode", "figuremode")
-- 
2.43.0


From f471ef9ea279ab94bdaaf98abcaac3c2c55e215a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 14/80] fix: don't append a duration twice to a chord when a
 document is updated

---
 quickly/lang/lilypond.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 90635b8..4f1fd01 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -1153,7 +1153,8 @@ class MusicBuilder:
     def music_element(self, obj):
         """An element node that is a music item (chord, figure)."""
         yield from self.pending_music()
-        self._music = obj
+        # don't append to obj itself: it is cached by the transformer
+        self._music = type(obj)(*obj)
 
     @_context("script")
     def script(self, obj):
-- 
2.43.0


From efb5836d06f40433b4153b0f001505b4ac756f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 15/80] fix: keep nodes in document order when comments,
 durations or \rest appear at odd places

---
 quickly/dom/util.py      |  3 ++-
 quickly/lang/lilypond.py | 16 +++++++++-------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/quickly/dom/util.py b/quickly/dom/util.py
index cf2c53b..ebf243d 100644
--- a/quickly/dom/util.py
+++ b/quickly/dom/util.py
@@ -159,8 +159,9 @@ def skip_comments(node):
 def pop_comments(node):
     """Pop and return comments off the end of node (and/or its children)."""
     from .base import Comment
+    from .element import BlockElement
     comments = []
-    while len(node):
+    while len(node) and not isinstance(node, BlockElement):
         if isinstance(node[-1], Comment):
             comments.append(node.pop())
         else:
diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 4f1fd01..391c2e5 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -839,7 +839,7 @@ class MusicBuilder:
     @_token(r'\rest')
     def rest_token(self, token):
         r"""Called for ``\rest``."""
-        if isinstance(self._music, lily.Note):
+        if isinstance(self._music, lily.Note) and not self._articulations and not self._events:
             # make it a positioned rest, reuse old pitch token if possible
             note = self._music
             self._music = rest = lily.PitchedRest(note.head, *note)
@@ -900,7 +900,8 @@ class MusicBuilder:
     @_action(a.Number.Duration)
     def duration_action(self, token):
         r"""Called for ``Number.Duration``."""
-        if self._duration or self._articulations:
+        if not self._music or self._duration or self._modifier or \
+                self._articulations or self._events:
             yield from self.pending_music()
         self._duration = [token]
 
@@ -1136,7 +1137,7 @@ class MusicBuilder:
     @_context("pitch")
     def pitch(self, obj):
         """Called for ``pitch`` context: octave, accidental, octavecheck and/or comment."""
-        if self._music:
+        if self._music and not self._events:
             self._music.extend(obj)
         else:
             # only happens in erronous LilyPond input, but at least we keep the object
@@ -1209,9 +1210,10 @@ class MusicBuilder:
             self._events[-1].append(obj)
         elif self._articulations:
             self._articulations.append(obj)
-        elif not self._music and not self._duration:
+        elif self._duration:
+            self._comments.append(obj)  # will be added after the duration
+        elif self._music:
+            self._music.append(obj)     # before the duration (if one follows)
+        else:
             # no pending music
             yield obj
-        else:
-            self._comments.append(obj)  # will be added after the duration
-
-- 
2.43.0


From 9391e149d45566b2fc99256e92206e4979c8c5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:44 +0000
Subject: [PATCH 16/80] fix: keep articulations, directions and \rest that
 don't follow a note

---
 quickly/lang/lilypond.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 391c2e5..f1f322f 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -759,31 +759,27 @@ class MusicBuilder:
 
             yield music
             yield from self._comments
+        elif self._articulations:
+            # not bound to a note, e.g. after an identifier reference
+            yield self._articulations
 
         # if there are tweaks, tags or shapes but no articulations, the
         # tweak, tag or shape is meant for the next note. Output it now.
-        for e in self._events:
-            if isinstance(e, (lily.Tweak, lily.Tag, lily.Shape)):
-                yield e
+        yield from self._events
         self.reset()
 
     def add_articulation(self, art):
         """Add an articulation or script."""
-        if self._music or self._duration:
-            if self._events:
-                self._events[-1].append(art)
-                art = e = self._events[0]
-                for f in self._events[1:]:
-                    e.append(f)
-                    e = f
-                self._events.clear()
-            if not self._articulations:
-                self._articulations = lily.Articulations()
-            self._articulations.append(art)
-            return True
-        else:
-            print("Unbound event:", art) # TEMP
-            return False
+        if self._events:
+            self._events[-1].append(art)
+            art = e = self._events[0]
+            for f in self._events[1:]:
+                e.append(f)
+                e = f
+            self._events.clear()
+        if not self._articulations:
+            self._articulations = lily.Articulations()
+        self._articulations.append(art)
 
     def add_spanner_id(self, node):
         """Return True if the node could be added to a spanner id that's being built."""
@@ -845,6 +841,10 @@ class MusicBuilder:
             self._music = rest = lily.PitchedRest(note.head, *note)
             rest.copy_origin_from(note)
             self._modifier = self.factory(lily.RestModifier, (token,))
+        else:
+            # only happens in erronous LilyPond input, but at least we keep the object
+            yield from self.pending_music()
+            yield self.factory(lily.RestModifier, (token,))
 
     @_token(r'\tweak')
     def tweak_token(self, token):
-- 
2.43.0


From 7becffb6c94340c4c237c54ed8a5271b5f2949fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:44 +0000
Subject: [PATCH 17/80] fix: don't lose the contents of a \markup that starts
 with a comment

---
 quickly/lang/lilypond.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index f1f322f..9824b61 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -457,9 +457,13 @@ class LilyPondTransform(base.Transform):
 
         """
         origin = markup[:1]     # the \markup or \markuplist command
+        args = []
         for mkup in self.read_markup_arguments(itertools.chain(markup[1:], items)):
-            yield self.factory(lily.Markup, origin, (), mkup)
-            break
+            args.append(mkup)
+            if not isinstance(mkup, base.Comment):
+                break
+        if args:
+            yield self.factory(lily.Markup, origin, (), *args)
 
     def read_markup_arguments(self, items):
         """Read from items and yield nodes that can occur in markup."""
-- 
2.43.0


From b3f70ead0bcdf0aa2c988d3664e0474943a8b456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:23 +0000
Subject: [PATCH 18/80] fix: keep comments in place in figures, after a lyric
 word and after articulations of a pitched rest

---
 quickly/lang/lilypond.py | 55 +++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 9824b61..eb5fbdc 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -498,33 +498,44 @@ class LilyPondTransform(base.Transform):
     def create_figure(self, items):
         """Yield nodes to be added in a Figure."""
         step = None
+        comments = []   # comments after the step
+
+        def pending():
+            """Yield the pending step and the comments following it."""
+            if step:
+                yield step
+            yield from comments
+            comments.clear()
+
         items = iter(items)
         for i in items:
             if i.is_token:
                 if i.action is a.Text.Music.Pitch.Figure:
-                    if step:
-                        yield step
+                    yield from pending()
                     cls = lily.FigureSkip if i == '_' else lily.FigureStep
                     step = self.factory(cls, (i,))
-                elif i.action is a.Text.Music.Pitch.Accidental:
-                    if step:
-                        step.append(self.factory(lily.FigureAccidental, (i,)))
-                elif i.action is a.Literal.Character.Alteration:
+                elif i.action in (a.Text.Music.Pitch.Accidental, a.Literal.Character.Alteration):
+                    cls = lily.FigureAccidental if i.action is a.Text.Music.Pitch.Accidental else lily.FigureAlteration
+                    node = self.factory(cls, (i,))
                     if step:
-                        step.append(self.factory(lily.FigureAlteration, (i,)))
+                        step.extend(comments)
+                        comments.clear()
+                        step.append(node)
+                    else:
+                        yield from pending()
+                        yield node
             elif i.name == "markup":
-                if step:
-                    yield step
-                for step in self.create_markup(i.obj, items):
-                    break
-                else:
-                    step = None
+                yield from pending()
+                step = None
+                yield from self.create_markup(i.obj, items)
+            elif isinstance(i.obj, base.Comment):
+                comments.append(i.obj)
             elif isinstance(i.obj, element.Element):
-                if step:
-                    yield step
-                step = i.obj
-        if step:
-            yield step
+                # don't append to i.obj: it is cached by the transformer
+                yield from pending()
+                step = None
+                yield i.obj
+        yield from pending()
 
     def create_music(self, items):
         """Read music from items and yield Element nodes."""
@@ -1208,16 +1219,18 @@ class MusicBuilder:
         Comments are preserved as good as possible.
 
         """
-        if self._modifier:
-            self._modifier.append(obj)
-        elif self._events:
+        if self._events:
             self._events[-1].append(obj)
         elif self._articulations:
             self._articulations.append(obj)
+        elif self._modifier:
+            self._modifier.append(obj)
         elif self._duration:
             self._comments.append(obj)  # will be added after the duration
         elif self._music:
             self._music.append(obj)     # before the duration (if one follows)
+            if isinstance(self._music, lily.LyricText):
+                self._music.space_after_head = " "  # keep it apart from the word
         else:
             # no pending music
             yield obj
-- 
2.43.0


From 4136f6e030385c1d8b3601af91361308046769ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 19/80] fix: natural accidental in figures, whitespace in
 LilyPond blocks in Scheme, comments after lyric skips and hyphens

---
 quickly/dom/lily.py      | 4 ++--
 quickly/dom/scm.py       | 1 +
 quickly/lang/lilypond.py | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index f1b990a..af2788f 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2503,13 +2503,13 @@ class FigureAccidental(element.MappingElement):
     r"""An accidental in figure mode.
 
     One of: -1, -0.5, 0, 0.5, 1, corresponding to:
-     ``'--'``, ``'-'``, ``''``, ``'+'`` or ``'++'``.
+     ``'--'``, ``'-'``, ``'!'``, ``'+'`` or ``'++'``.
 
     """
     mapping = {
         '--':  -1,
         '-':   -0.5,
-        '':     0,
+        '!':    0,
         '+':    0.5,
         '++':   1,
     }
diff --git a/quickly/dom/scm.py b/quickly/dom/scm.py
index cd887d5..e863bf9 100644
--- a/quickly/dom/scm.py
+++ b/quickly/dom/scm.py
@@ -65,6 +65,7 @@ from . import base, element
 
 class LilyPond(element.BlockElement):
     """A LilyPond block inside Scheme, between ``#{`` and ``#}``."""
+    space_between = " "
     head = "#{"
     tail = "#}"
 
diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index eb5fbdc..061bff8 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -1229,7 +1229,7 @@ class MusicBuilder:
             self._comments.append(obj)  # will be added after the duration
         elif self._music:
             self._music.append(obj)     # before the duration (if one follows)
-            if isinstance(self._music, lily.LyricText):
+            if isinstance(self._music, (lily.LyricText, lily.LyricSkip, lily.LyricHyphen, lily.LyricExtender)):
                 self._music.space_after_head = " "  # keep it apart from the word
         else:
             # no pending music
-- 
2.43.0


From 7f9506dcb5f1b7cc0866a6ed9e46c06120fcbb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 20/80] fix: don't lose dots, scaling or articulations when a
 duration is used as a number argument

---
 quickly/dom/lily.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index af2788f..0541e02 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -487,10 +487,8 @@ class _ConvertUnpitchedToDuration(element.Element):
     """Mixin class to convert Unpitched arguments to their Duration."""
     def add_argument(self, node):
         """Reimplemented to pick the Duration of an Unpitched node."""
-        if isinstance(node, Unpitched):
-            for node in node:
-                node = node.copy_with_origin()
-                break
+        if isinstance(node, Unpitched) and len(node) == 1:
+            node = node[0].copy_with_origin()
         super().add_argument(node)
 
 
@@ -498,9 +496,10 @@ class _ConvertUnpitchedToInt(element.Element):
     """Mixin class to convert Unpitched arguments to an Int."""
     def add_argument(self, node):
         """Reimplemented to read the Duration of an Unpitched node as a Int."""
-        if isinstance(node, Unpitched):
+        if isinstance(node, Unpitched) and len(node) == 1:
             for dur in node / Duration:
-                node = convert_duration_to_int(dur) or node
+                if not len(dur):
+                    node = convert_duration_to_int(dur) or node
                 break
         super().add_argument(node)
 
@@ -3380,7 +3379,8 @@ def convert_duration_to_int(node):
         except AttributeError:
             return Int(int(node.write()))
         else:
-            return Int.with_origin(origin)
+            if len(origin) == 1:    # no dots
+                return Int.with_origin(origin)
     except ValueError:
         return    # cannot convert
 
-- 
2.43.0


From aa81de2dde9a76bc75e7a937b9d7f7310d6caad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:29 +0000
Subject: [PATCH 21/80] fix: keep html comments, latex unterminated options and
 chord modifiers not following a note

Html comments, cdata sections and processing instructions inside tags were
dropped from the DOM; the CDATA head was written as <[CDATA[ and read without
its content; the origin of an unterminated one character string was listed
twice; an unterminated option of a LaTeX command raised IndexError; a chord
modifier after a direction or articulation was lost or reordered.
---
 quickly/dom/htm.py       |  7 ++++---
 quickly/lang/html.py     |  6 ++++--
 quickly/lang/latex.py    |  5 ++++-
 quickly/lang/lilypond.py | 17 +++++++++++------
 4 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/quickly/dom/htm.py b/quickly/dom/htm.py
index 1ce2463..ecbeb7e 100644
--- a/quickly/dom/htm.py
+++ b/quickly/dom/htm.py
@@ -235,12 +235,13 @@ class CData(element.TextElement):
     """
     @classmethod
     def read_head(cls, origin):
-        return origin[1]
+        end = -1 if origin[-1] == "]]>" else None
+        return ''.join(t.text for t in origin[1:end])
 
     def write_head(self):
         # handle the unlikely case literal ']]>' is in text
-        text = self.head.replace(']]>', ']]>]]&gt;<[CDATA[')
-        return "<[CDATA[{}]]>".format(text)
+        text = self.head.replace(']]>', ']]>]]&gt;<![CDATA[')
+        return "<![CDATA[{}]]>".format(text)
 
 
 class String(element.BlockElement):
diff --git a/quickly/lang/html.py b/quickly/lang/html.py
index de80309..a371cc0 100644
--- a/quickly/lang/html.py
+++ b/quickly/lang/html.py
@@ -138,14 +138,14 @@ class HtmlTransform(base.Transform):
     def dqstring(self, items):
         """Process the ``dqstring`` context."""
         head_origin = items[0],
-        tail_origin = (items.pop(),) if items[-1] == '"' else ()
+        tail_origin = (items.pop(),) if len(items) > 1 and items[-1] == '"' else ()
         children = (self._action(t.action, t) for t in items[1:])
         return self.factory(htm.DqString, head_origin, tail_origin, *children)
 
     def sqstring(self, items):
         """Process the ``sqstring`` context."""
         head_origin = items[0],
-        tail_origin = (items.pop(),) if items[-1] == "'" else ()
+        tail_origin = (items.pop(),) if len(items) > 1 and items[-1] == "'" else ()
         children = (self._action(t.action, t) for t in items[1:])
         return self.factory(htm.SqString, head_origin, tail_origin, *children)
 
@@ -237,6 +237,8 @@ class HtmlTransform(base.Transform):
                 nodes[-1].extend(items[i].obj) # add contents and CloseTag
             elif items[i].name == "html_lilypond_tag":
                 nodes[-1].extend(items[i].obj[0]) # add contents and CloseTag
+            elif isinstance(items[i].obj, element.Element):
+                nodes.append(items[i].obj) # comment, cdata, processing instruction
             i += 1
         return nodes
 
diff --git a/quickly/lang/latex.py b/quickly/lang/latex.py
index 859b925..536507f 100644
--- a/quickly/lang/latex.py
+++ b/quickly/lang/latex.py
@@ -110,7 +110,10 @@ class LatexTransform(base.Transform):
             try:
                 i = items.index(']', pos)
             except ValueError:
-                nodes.append(self.factory(tex.Option, head_origin, (), *self.common(items[pos:])))
+                if head_origin:
+                    nodes.append(self.factory(tex.Option, head_origin, (), *self.common(items[pos:])))
+                else:
+                    nodes.append( (self.common(items[pos:]), ()) )
                 break
             tail_origin = items[i],
             if head_origin:
diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 061bff8..58ce73b 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -774,9 +774,12 @@ class MusicBuilder:
 
             yield music
             yield from self._comments
-        elif self._articulations:
+        else:
             # not bound to a note, e.g. after an identifier reference
-            yield self._articulations
+            if self._modifier:
+                yield self._modifier
+            if self._articulations:
+                yield self._articulations
 
         # if there are tweaks, tags or shapes but no articulations, the
         # tweak, tag or shape is meant for the next note. Output it now.
@@ -998,10 +1001,12 @@ class MusicBuilder:
             # next item is the pitch of an inversion
             note = self.factory(lily.Pitch, (next(self.items),))
             elem.append(note)
-        if self._music and not self._articulations:
-            if not self._modifier:
-                self._modifier = lily.ChordModifiers()
-            self._modifier.append(elem)
+        if not self._music or self._articulations or self._events:
+            # only happens in erronous LilyPond input, but at least we keep the object
+            yield from self.pending_music()
+        if not self._modifier:
+            self._modifier = lily.ChordModifiers()
+        self._modifier.append(elem)
 
     @_action(a.Number)
     def number_action(self, token):
-- 
2.43.0


From 7cba635fd61ee96f8f76d151840a1a133f8160c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 22/80] fix: unknown \language names and \include without
 filename don't raise when following the language

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 0541e02..1c6da0c 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2828,7 +2828,7 @@ class Include(element.HeadElement):
         """
         from .. import pitch
         filename = self.filename
-        if filename.endswith(".ly"):
+        if filename and filename.endswith(".ly"):
             language = filename[:-3]
             if language in pitch.pitch_names:
                 return language
-- 
2.43.0


From d27c05d56c5dba802f1068fb956d1ef17af9f7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 23/80] =?UTF-8?q?fix:=20pitch=20name=20preferences=20in=20?=
 =?UTF-8?q?english,=20norsk=20and=20catal=C3=A0?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

English short names were not used for pitches without an x variant when
prefer_x is set, distilling short english names looked at the note instead of
the alteration, prefer_classic was inverted in norsk and català had no
preferences. Unknown languages in a document don't raise KeyError.
---
 quickly/pitch.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index fd63359..5d056e0 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -454,7 +454,7 @@ class PitchProcessor:
         from .dom import lily
         for n in node < (lily.Language, lily.Include):
             lang = n.language
-            if lang:
+            if lang in pitch_names:
                 self.language = lang
                 break
 
@@ -472,7 +472,7 @@ class PitchProcessor:
         for n in nodes:
             if isinstance(n, (lily.Language, lily.Include)):
                 lang = n.language
-                if lang:
+                if lang in pitch_names:
                     self.language = lang
                     continue
             yield n
@@ -516,7 +516,7 @@ class PitchProcessor:
                 elif language == "english":
                     if '-' in name:
                         prefer_long = True
-                    elif not prefer_long and pnames[name][1] in {-1, -0.5, 0.5, 1}:
+                    elif not prefer_long and pnames[name][2] in {-1, -0.5, 0.5, 1}:
                         prefer_long = False
                 elif language == "français":
                     if 'é' in name:
@@ -528,6 +528,11 @@ class PitchProcessor:
                         prefer_deprecated = True
                     elif not prefer_deprecated and name in {'eh', 'asas', 'asah', 'ah'}:
                         prefer_deprecated = False
+                elif language in ("catalan", "català"):
+                    if name.endswith('s'):
+                        prefer_deprecated = True
+                    elif not prefer_deprecated and name.endswith('d'):
+                        prefer_deprecated = False
                 elif language == "suomi":
                     if name in {'ases', 'bb', 'heses'}:
                         prefer_deprecated = True
@@ -565,6 +570,7 @@ class PitchProcessor:
                 return name
 
     @_suitable("catalan")
+    @_suitable("català")
     def _catalan(self, names):
         for name in names:
             if self.prefer_deprecated == name.endswith('s'):
@@ -582,9 +588,12 @@ class PitchProcessor:
             for name in names:
                 if "-" in name:
                     return name
+        names = [name for name in names if "-" not in name]
         for name in names:
-            if "-" not in name and self.prefer_x == name.endswith('x'):
+            if self.prefer_x == name.endswith('x'):
                 return name
+        if names:
+            return names[0]     # prefer_x does not apply to this pitch
 
     @_suitable("espanol")
     @_suitable("español")
@@ -612,7 +621,7 @@ class PitchProcessor:
                 return subset[0]
             names = subset
         for name in names:
-            if self.prefer_classic == ('ee' in name or 'ae' in name):
+            if self.prefer_classic == (name[:2] not in {'ee', 'ae'}):
                 return name
 
     @_suitable("suomi")
-- 
2.43.0


From 8fc2e01c08c615d8884c5b20cf032ac2970d230a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:46 +0000
Subject: [PATCH 24/80] fix: read a LaTeX environment name that consists of a
 brace

---
 quickly/dom/tex.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/quickly/dom/tex.py b/quickly/dom/tex.py
index d3f34ff..dbf2719 100644
--- a/quickly/dom/tex.py
+++ b/quickly/dom/tex.py
@@ -127,9 +127,7 @@ class EnvironmentName(element.TextElement):
     """
     @classmethod
     def read_head(cls, origin):
-        for t in origin:
-            if t.text not in "{}":
-                return t.text
+        return ''.join(t.text for t in origin[1:-1])
 
     def write_head(self):
         return '{' + self.head + '}'
-- 
2.43.0


From 880c202122c01fb22983461e27461d9252b86dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:46 +0000
Subject: [PATCH 25/80] fix: adding and subtracting Transposers

---
 quickly/transpose.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index f83112f..433447e 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -89,6 +89,7 @@ class Transposer(AbstractTransposer):
 
     def __add__(self, other):
         t = type(self).__new__(type(self))
+        t.scale = self.scale
         doct, t.steps = divmod(self.steps + other.steps, 7)
         t.octave = self.octave + other.octave + doct
         t.alter = self.alter + other.alter - doct * 6
@@ -96,9 +97,10 @@ class Transposer(AbstractTransposer):
 
     def __sub__(self, other):
         t = type(self).__new__(type(self))
+        t.scale = self.scale
         doct, t.steps = divmod(self.steps - other.steps, 7)
         t.octave = self.octave - other.octave + doct
-        t.alter = self.alter - other.alter + doct * 6
+        t.alter = self.alter - other.alter - doct * 6
         return t
 
 
-- 
2.43.0


From e0f65d41fbc2c3c90e9576177625bee7bc236124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:32 +0000
Subject: [PATCH 26/80] fix: a range from a node to one of its descendants
 includes the start node

---
 quickly/node.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/quickly/node.py b/quickly/node.py
index e5f23d7..8efc7b5 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -725,7 +725,9 @@ class Range(Common):
 
         If ``from_root`` is True, the ancestor of the range will always be the
         root node; even if the trails to start and end node are partially the
-        same. If False, the ancestor will be the youngest common ancestor.
+        same. If False, the ancestor will be the youngest common ancestor (or
+        the parent of the start node, if the start node is itself an ancestor of
+        the end node).
 
         Raises a ValueError if both nodes are None, or when the nodes do not
         belong to the same tree.
@@ -740,6 +742,11 @@ class Range(Common):
         elif not from_root and start_node and end_node:
             ancestor, start_trail, end_trail = start_node.common_ancestor_with_trail(end_node)
             ok = ancestor is not None
+            if ok and ancestor is start_node and start_node.parent:
+                # the start node itself should be in the range
+                ancestor = start_node.parent
+                start_trail = [ancestor.index(start_node)]
+                end_trail = start_trail + end_trail
         elif start_node:
             ancestor = start_node.root()
             start_trail = start_node.trail()
-- 
2.43.0


From aaa281d767d105cd43106f1e69003ee8c8c2de87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:32 +0000
Subject: [PATCH 27/80] fix: edit the nodes that fall within the cursor's
 selection

---
 quickly/dom/edit.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/quickly/dom/edit.py b/quickly/dom/edit.py
index 406392f..1ac5520 100644
--- a/quickly/dom/edit.py
+++ b/quickly/dom/edit.py
@@ -108,14 +108,24 @@ class Edit:
         d = cursor.document().get_transform(True)
         r = start = end = None
         if cursor.has_selection():
+            # find the first and the last node that fall within the selection
             start_node = d.find_descendant_right(cursor.pos)
+            while start_node and start_node.end > cursor.end:
+                start_node = start_node.find_descendant_right(cursor.pos)
             end_node = d.find_descendant_left(cursor.end)
-            if end_node or start_node:
+            while end_node and end_node.pos < cursor.pos:
+                end_node = end_node.find_descendant_left(cursor.end)
+            if start_node and end_node:
+                start = start_node.pos
+                end = end_node.end
+                # include the children of the last node
+                while len(end_node):
+                    end_node = end_node[-1]
                 r = Range.from_nodes(start_node, end_node, self.range_from_root)
-                if start_node:
-                    start = start_node.pos
-                if end_node:
-                    end = end_node.end
+            else:
+                # no node within the selection
+                r = Range(d, None, [])
+                start, end = cursor.pos, cursor.end
         elif self.range_from_cursor:
             start_node = d.find_descendant_right(cursor.pos)
             if start_node:
-- 
2.43.0


From 75ac164db93af9259388f9e1cc47c61b0ab3f311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:32 +0000
Subject: [PATCH 28/80] fix: transposing a selection in relative music, \fixed
 octaves, relative start pitch

---
 quickly/transpose.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index 433447e..445a669 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -134,17 +134,17 @@ class Transpose(edit.Edit):
 
     def edit_range(self, r):
         """Perform the transposing on the specified range."""
-        node = r.ancestor()
+        # always start at the root node, to know the language, and whether
+        # pitches are relative or fixed
+        node = r.ancestor().root()
         processor = self.processor or PitchProcessor()
 
-        if not node.is_root():
-            processor.find_language(node)
-
         relative_first_pitch_absolute = self.relative_first_pitch_absolute
         if relative_first_pitch_absolute is None:
             relative_first_pitch_absolute = util.lilypond_version(node) >= (2, 18)
 
-        writable = (lambda n: True) if r.is_full() else (lambda n: n in r)
+        full = r.is_full() and r.ancestor() is node
+        writable = (lambda n: True) if full else (lambda n: n in r)
 
         def notes(nodes, relative_mode=False):
             """Yield notes (lily.Pitchable) to be transposed.
@@ -200,13 +200,13 @@ class Transpose(edit.Edit):
             r"""Transpose \fixed pitches: handle octave nicely."""
             nodes = util.skip_comments(node)
             for note in nodes:
+                offset = 0
                 if isinstance(note, lily.Pitchable) and writable(note):
                     # we may change this note, modify the octave
-                    offset = self.transposer.octave
                     with processor.process(note) as p:
+                        octave = p.octave
                         self.transposer.transpose(p)
-                else:
-                    offset = 0
+                        offset = p.octave - octave
                 for p in transpose_pitches(nodes):
                     p.octave -= offset
 
@@ -248,8 +248,6 @@ class Transpose(edit.Edit):
                     with processor.process(start_note) as p:
                         self.transposer.transpose(p)
                     last_pitch.transposed = p
-                    last_pitch.octave -= self.transposer.octave
-                    last_pitch.transposed.octave -= self.transposer.octave
             else:
                 last_pitch = Pitch(-1, 3, 0) if relative_first_pitch_absolute else Pitch(0, 0, 0)
 
-- 
2.43.0


From 7c7ed7b2c45e8faaa33e1ad1cb93ae17681bc024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:51 +0000
Subject: [PATCH 29/80] fix: a node with descendants after the range end is not
 completely in the range

---
 quickly/node.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/quickly/node.py b/quickly/node.py
index 8efc7b5..34a40cd 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -842,8 +842,18 @@ class Range(Common):
             return self._stack[0].start_in_range() and self._stack[0].end_in_range()
         elif self.start_trail and trail < self.start_trail:
             return False
-        elif self.end_trail is not None and trail > self.end_trail:
-            return False
+        elif self.end_trail is not None:
+            if trail > self.end_trail:
+                return False
+            elif trail == self.end_trail[:len(trail)]:
+                # on the end trail; there should be no descendants after the end node
+                node = self.ancestor()
+                for i in trail:
+                    node = node[i]
+                for i in self.end_trail[len(trail):]:
+                    if i < len(node) - 1:
+                        return False
+                    node = node[i]
         return True
 
     def _trail_intersects(self, trail):
-- 
2.43.0


From 7393b0fd222ff643073cba2064a7075b281267fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:51 +0000
Subject: [PATCH 30/80] fix: \transpose and markup scores are not affected by
 \relative when transposing

---
 quickly/transpose.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index 445a669..ed5f2de 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -143,8 +143,12 @@ class Transpose(edit.Edit):
         if relative_first_pitch_absolute is None:
             relative_first_pitch_absolute = util.lilypond_version(node) >= (2, 18)
 
-        full = r.is_full() and r.ancestor() is node
-        writable = (lambda n: True) if full else (lambda n: n in r)
+        if r.is_full() and r.ancestor() is node:
+            writable = lambda n: True
+        else:
+            # determine this before the first change is made
+            selected = set(id(n) for n in r.ancestor() // lily.Pitchable if n in r)
+            writable = lambda n: id(n) in selected
 
         def notes(nodes, relative_mode=False):
             """Yield notes (lily.Pitchable) to be transposed.
@@ -165,10 +169,16 @@ class Transpose(edit.Edit):
                 elif isinstance(n, lily.Fixed):
                     transpose_fixed(n)
                 elif isinstance(n, lily.Transpose):
-                    pitches, rest = n[:2], n[2:]
+                    nodes = list(util.skip_comments(n))
+                    pitches, rest = nodes[:2], nodes[2:]
                     for p in transpose_pitches(pitches):
                         p.octave -= self.transposer.octave
-                    yield from notes(rest)
+                    if relative_mode:
+                        transpose_absolute(rest)    # not affected by \relative
+                    else:
+                        yield from notes(rest)
+                elif isinstance(n, lily.Markup):
+                    transpose_absolute(n)   # e.g. a markup score
                 elif isinstance(n, (lily.Transposition, lily.StringTuning)):
                     pass    # don't change child nodes
                 elif relative_mode and isinstance(n, (lily.Chord, lily.OctaveCheck)):
@@ -259,8 +269,11 @@ class Transpose(edit.Edit):
                 elif isinstance(n, lily.Chord):
                     # chord
                     stack = [last_pitch]
-                    for note in notes(n):
-                        stack.append(transpose(note, stack[-1]))
+                    for body in n / lily.ChordBody:
+                        for note in notes(body):
+                            stack.append(transpose(note, stack[-1]))
+                    for markup in n // lily.Markup:
+                        transpose_absolute(markup)
                     last_pitch = stack[:2][-1]  # first note of chord, or the old if chord was empty
                 elif isinstance(n, lily.OctaveCheck):
                     # OctaveCheck, also transpose and keep as new last_pitch
-- 
2.43.0


From 38e58d3cb1dd801bc381a2ba35ea2bf88c79fff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:51 +0000
Subject: [PATCH 31/80] fix: relative/absolute conversion: chords, nested
 sections, octave checks, comments, selections

---
 quickly/relative.py | 138 +++++++++++++++++++++++++++++---------------
 1 file changed, 91 insertions(+), 47 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index e969e84..97154b5 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -26,6 +26,30 @@ from .dom import edit, lily, util
 from .pitch import Pitch, PitchProcessor
 
 
+#: Music and commands in which pitches are not affected by a surrounding ``\relative``.
+UNRELATIVABLE = (
+    lily.Inversion, lily.Key, lily.Absolute, lily.Fixed, lily.Transpose,
+    lily.Transposition, lily.StringTuning, lily.Markup,
+)
+
+
+def _in_relative(node):
+    r"""True if the music in ``node`` is affected by a ``\relative`` command."""
+    for n in (node, *node.ancestors()):
+        if isinstance(n, lily.Relative):
+            return True
+        elif isinstance(n, UNRELATIVABLE):
+            return False
+    return False
+
+
+def _find_language(processor, r):
+    """Set the language of the ``processor`` to the one at the start of the Range ``r``."""
+    node = r.start_node() or r.ancestor()
+    if not node.is_root():
+        processor.find_language(node)
+
+
 class Rel2abs(edit.Edit):
     r"""Convert ``\relative`` music to absolute.
 
@@ -55,10 +79,11 @@ class Rel2abs(edit.Edit):
     def edit_range(self, r):
         """Do the pitch conversion."""
         node = r.ancestor()
-        processor = self.processor or PitchProcessor()
+        if _in_relative(node):
+            return  # this music is relative to music outside the range
 
-        if not node.is_root():
-            processor.find_language(node)
+        processor = self.processor or PitchProcessor()
+        _find_language(processor, r)
 
         first_pitch_absolute = self.first_pitch_absolute
         if first_pitch_absolute is None:
@@ -66,32 +91,35 @@ class Rel2abs(edit.Edit):
 
         def notes(nodes):
             """Yield note/rest, chord and octavecheck; follow pitch language."""
-            for n in processor.follow_language(nodes):
+            for n in processor.follow_language(list(nodes)):
                 if isinstance(n, lily.Pitchable):
                     yield n
-                    # music in markup expressions?
-                    for n in node.instances_of(lily.Relative):
-                        make_absolute(n)
+                    make_all_absolute(n)    # music in markup expressions?
                 elif isinstance(n, (lily.Chord, lily.OctaveCheck)):
                     yield n
                 elif isinstance(n, lily.Relative):
                     make_absolute(n)
-                elif isinstance(n, (
-                        lily.Inversion, lily.Key, lily.Absolute, lily.Fixed,
-                        lily.Transpose, lily.Transposition, lily.StringTuning,
-                    )):
-                    pass
+                elif isinstance(n, UNRELATIVABLE):
+                    make_all_absolute(n)
                 else:
                     yield from notes(n)
 
+        def make_all_absolute(node):
+            r"""Convert all \relative music in node."""
+            for n in processor.follow_language(node.instances_of((lily.Language, lily.Include, lily.Relative))):
+                if isinstance(n, lily.Relative):
+                    make_absolute(n)
+
         def make_absolute(node):
             """Convert this relative music to absolute music."""
             parent = node.parent
             index = parent.index(node)
 
-            nodes = list(util.skip_comments(node))
-            if len(nodes) > 1 and isinstance(nodes[0], lily.Pitch):
-                start_note, *nodes = nodes
+            nodes = list(node)
+            music = list(util.skip_comments(node))
+            if len(music) > 1 and isinstance(music[0], lily.Pitch):
+                start_note = music[0]
+                nodes.remove(start_note)
                 last_pitch = processor.read_node(start_note)
             elif first_pitch_absolute:
                 last_pitch = Pitch(-1, 3, 0)
@@ -110,11 +138,13 @@ class Rel2abs(edit.Edit):
                 elif isinstance(n, lily.Chord):
                     # chord
                     stack = [last_pitch]
-                    for note in notes(n):
-                        with processor.process(note) as p:
-                            default_octave = p.octave - note.octave # the octave of the pitch name itself
-                            p.make_absolute(stack[-1], default_octave)
-                            stack.append(p)
+                    for body in n / lily.ChordBody:
+                        for note in notes(body):
+                            with processor.process(note) as p:
+                                default_octave = p.octave - note.octave # the octave of the pitch name itself
+                                p.make_absolute(stack[-1], default_octave)
+                                stack.append(p)
+                    make_all_absolute(n)    # music in markup expressions?
                     last_pitch = stack[:2][-1]  # first note of chord, or the old if chord was empty
                 elif isinstance(n, lily.OctaveCheck):
                     # OctaveCheck, read last_pitch but remove
@@ -123,9 +153,11 @@ class Rel2abs(edit.Edit):
                     n.parent.remove(n)
         # Do it!
         nodes = r.instances_of((lily.Language, lily.Include, lily.Relative))
-        for n in processor.follow_language(nodes):
-            if isinstance(n, lily.Relative) and r.in_range():
-                make_absolute(n)
+        relatives = [(n, processor.language) for n in processor.follow_language(nodes)
+                            if isinstance(n, lily.Relative) and r.in_range()]
+        for n, language in relatives:
+            processor.language = language
+            make_absolute(n)
 
 
 def rel2abs(music):
@@ -179,30 +211,37 @@ class Abs2rel(edit.Edit):
         if not self.start_pitch and first_pitch_absolute is None:
             first_pitch_absolute = util.lilypond_version(node) >= (2, 18)
 
-        processor = self.processor or PitchProcessor()
-
-        if not node.is_root():
-            processor.find_language(node)
-
-        return processor, first_pitch_absolute
+        return self.processor or PitchProcessor(), first_pitch_absolute
 
     def edit_range(self, r):
         """Do the pitch conversion."""
+        if _in_relative(r.ancestor()):
+            return  # this music is already relative
+        elif any(isinstance(n, lily.ChordMode) for n in (r.ancestor(), *r.ancestor().ancestors())):
+            return  # only a ChordMode node as a whole is converted
+
         processor, first_pitch_absolute = self._get_settings(r.ancestor())
+        _find_language(processor, r)
+
+        def has_notes(node):
+            """True if the music list has child notes or chords with notes."""
+            return any(node / lily.Pitchable) or any(
+                any(body / lily.Pitchable) for chord in node / lily.Chord for body in chord / lily.ChordBody)
 
-        def abs2rel():
-            """Find MusicList nodes, and if they contain notes, make relative."""
-            for n in r.instances_of((lily.MusicList, lily.Relative, lily.ChordMode)):
-                if isinstance(n, lily.MusicList):
-                    if any(n / lily.Pitchable) and r.in_range():
-                        r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
-                    else:
-                        abs2rel()
-                elif isinstance(n, lily.ChordMode):
-                    r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
+        def predicate(node):
+            """Find MusicList nodes that contain notes, and nodes not to look into."""
+            if isinstance(node, lily.MusicList):
+                return has_notes(node) and node in r
+            return isinstance(node, (lily.Language, lily.Include, lily.Relative, lily.ChordMode))
 
         # Do it!
-        abs2rel()
+        nodes = [(n, processor.language) for n in processor.follow_language(r.filter(predicate))
+                    if isinstance(n, (lily.MusicList, lily.ChordMode)) and n in r]
+        for n, language in nodes:
+            processor.language = language
+            parent = n.parent
+            index = parent.index(n)
+            parent[index] = self._make_relative_internal(n, processor, first_pitch_absolute)
 
     def make_relative(self, node):
         """Make al notes and pitched rests in the specified :class:`~quickly.dom.lily.MusicList` or
@@ -215,6 +254,8 @@ class Abs2rel(edit.Edit):
 
         """
         processor, first_pitch_absolute = self._get_settings(node)
+        if not node.is_root():
+            processor.find_language(node)
         return self._make_relative_internal(node, processor, first_pitch_absolute)
 
     def _make_relative_internal(self, node, processor, first_pitch_absolute):
@@ -248,14 +289,17 @@ class Abs2rel(edit.Edit):
                     last_pitch = relative_note(n, last_pitch)
                 elif isinstance(n, lily.Chord):
                     stack = [last_pitch]
-                    for note in n / lily.Pitchable:
-                        stack.append(relative_note(note, last_pitch))
+                    for body in n / lily.ChordBody:
+                        for note in body / lily.Pitchable:
+                            stack.append(relative_note(note, stack[-1]))
                     last_pitch = stack[:2][-1]  # first of chord or old if empty
-                elif isinstance(n, (
-                    lily.Inversion, lily.Key, lily.Absolute, lily.Fixed,
-                    lily.Transpose, lily.Transposition, lily.StringTuning,
-                )):
-                    pass
+                elif isinstance(n, lily.OctaveCheck):
+                    for note in n / lily.Pitchable:
+                        last_pitch = processor.read_node(note)
+                elif isinstance(n, (lily.Relative, *UNRELATIVABLE)):
+                    # don't change, but follow the language
+                    for m in processor.follow_language(n // (lily.Language, lily.Include)):
+                        pass
                 else:
                     last_pitch = relative_notes(n, last_pitch)
             return last_pitch
-- 
2.43.0


From 4b57c8f90ac78be9557a0de952f93a0617a4b211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 32/80] fix: explicit/implicit durations: notes in chords,
 \skip, unpitched notes, selections

---
 quickly/rhythm.py | 65 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 21 deletions(-)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index 9df764c..a96747e 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -32,7 +32,7 @@ or any :class:`~.dom.element.Element` node (DOM tree).
 import itertools
 
 
-from .dom import edit, lily, util
+from .dom import base, edit, lily, util
 from .duration import duration
 
 
@@ -43,6 +43,9 @@ class EditRhythm(edit.Edit):
         """Yield all Durable instances in range."""
         for n in r.nodes():
             if isinstance(n, lily.Durable):
+                # skip the notes inside a chord, the chord has the duration
+                if isinstance(n.parent, lily.ChordBody):
+                    continue
                 # skip \skip with music instead of duration (which is legal
                 # as of LilyPond 2.23.6)
                 if isinstance(n, lily.Skip) and not any(n / lily.Duration):
@@ -53,9 +56,10 @@ class EditRhythm(edit.Edit):
     def may_remove(node):
         """Return True if the duration of this node may be removed.
 
-        A duration may not be removed if ``node.duration_required`` is True,
-        or when the node's right sibling has only the duration visible, such as
-        is the case with an unpitched note or an empty lyric item.
+        A duration may not be removed if ``node.duration_required`` is True, or
+        when the element that follows the node in the text has only the duration
+        visible, such as is the case with an unpitched note or an empty lyric
+        item.
 
         In that case, the current duration may not be removed, because the next
         duration would then be understood as the duration of the current node
@@ -66,18 +70,26 @@ class EditRhythm(edit.Edit):
             return False
         elif any(node / lily.Articulations):
             return True
-        n = node.right_sibling()
-        if n:
-            if isinstance(n, lily.Unpitched):
-                return False
-            elif isinstance(n, lily.LyricItem) and n.duration_required:
-                return False
+        # find the element that immediately follows in the text
+        while node.parent:
+            for n in node.right_siblings():
+                if isinstance(n, base.Comment):
+                    continue
+                elif isinstance(n, lily.Unpitched):
+                    return False
+                elif isinstance(n, lily.LyricItem) and n.duration_required:
+                    return False
+                return True
+            node = node.parent
+            if node.tail is not None:
+                break   # there is text between this node and the next
         return True
 
     def edit_range(self, r):
         """Perform our operations on all Durables in the range."""
         prev = None
-        for n in self.durables(r):
+        # a list, because removing durations can affect iterating over the range
+        for n in list(self.durables(r)):
             prev = self.process(n, prev)
 
     def process(self, node, prev):
@@ -161,9 +173,17 @@ class RhythmImplicitPerLine(EditRhythm):
                 del node.duration
             elif node.duration_sets_previous:
                 prev = [dur, block]
-        elif block and prev and prev[1] != block:
-            node.duration_scaling = prev[0]
-            prev[1] = block
+        elif block:
+            if not prev:
+                # the first in the range; is there a Durable before it on the line?
+                prev = [lily.previous_duration(node), None]
+                for n in node < lily.Durable:
+                    if n.duration_sets_previous and not isinstance(n.parent, lily.ChordBody):
+                        prev[1] = self.find_block(n)
+                        break
+            if prev[1] != block:
+                node.duration_scaling = prev[0]
+                prev[1] = block
         return prev
 
 
@@ -219,7 +239,7 @@ class RhythmTransform(EditRhythm):
 
     def edit_range(self, r):
         """Transform all durations."""
-        for n in r.nodes():
+        for n in list(r.nodes()):
             if isinstance(n, lily.HandleDuration):
                 dur = n.duration_scaling
                 if dur:
@@ -261,11 +281,13 @@ class CopyRhythm(EditRhythm):
                 prev = None
                 for n in self.durables(r):
                     dur = n.duration_scaling
-                    if dur:
+                    if not dur:
+                        if not prev:
+                            prev = lily.previous_duration(n)
+                        dur = prev
+                    elif n.duration_sets_previous:
                         prev = dur
-                    elif not prev:
-                        prev = lily.previous_duration(n)
-                    yield prev
+                    yield dur
             return list(durations())
         return [n.duration_scaling for n in self.durables(r)]
 
@@ -295,10 +317,11 @@ class PasteRhythm(EditRhythm):
         """Paste the durations."""
         durs = (itertools.cycle if self.cycle else iter)(self._durations)
         prev = None
-        for node, duration in zip(self.durables(r), durs):
+        for node, duration in zip(list(self.durables(r)), durs):
             if duration:
                 node.duration_scaling = duration
-                prev = duration
+                if node.duration_sets_previous:
+                    prev = duration
             elif self.may_remove(node):
                 del node.duration
             elif prev:
-- 
2.43.0


From 121041cd971bf3c65469d52774ecd024a4cd0cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 33/80] fix: write back DOM changes without touching unrelated
 text and whitespace

---
 quickly/dom/element.py | 107 ++++++++++++++++++++++++++++-------------
 1 file changed, 73 insertions(+), 34 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index 31e2bfe..205a040 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -621,7 +621,7 @@ class Element(Node, metaclass=ElementType):
         return combine_text(
             (p.space_before, p.text(), p.space_after) for p in self.points())[1]
 
-    def edits(self, context, start=None, end=None):
+    def edits(self, context, start=None, end=None, document=None):
         """Yield three-tuples (pos, end, text) denoting text changes.
 
         The ``context`` is a parce Context. If ``start`` and/or ``end`` are not
@@ -629,42 +629,81 @@ class Element(Node, metaclass=ElementType):
         modified text fragments will still be written to the document, but no
         text outside the specified range will be deleted.
 
+        If the parce ``document`` is given, its text is consulted to see
+        whether existing whitespace can be left alone. The changes are sorted
+        and do not overlap.
+
         """
-        pos = context.pos if start is None else start
-        end = context.end if end is None else end
-        tokens = context.tokens()
-        insert_after = ''
+        tokens = list(context.tokens())
+        if start is None:
+            start = context.pos if tokens else 0
+        if end is None:
+            end = context.end if tokens else start
+        old = iter([t for t in tokens if start <= t.pos and t.end <= end])
+        token = next(old, None)
+
+        def fits(pos, end, space):
+            """True if existing whitespace from pos to end fulfills the wish."""
+            text = document[pos:end] if document else ' ' * (end - pos)
+            return not space or (bool(text) and ('\n' not in space or '\n' in text))
+
+        pos = None          # end of last existing text that is kept
+        changed = False     # True if that text was modified
+        space = ''          # whitespace wish for the next text
+        new = []            # (space, text) tuples for new text
+
+        def changes(next_pos, next_changed):
+            """Yield the changes needed between pos and next_pos."""
+            nonlocal token
+            # find old content that is not there anymore
+            first = last = None
+            while token is not None and (next_pos is None or token.pos < next_pos):
+                if pos is None or token.pos >= pos:
+                    first = token.pos if first is None else first
+                    last = token.end
+                token = next(old, None)
+            if new:
+                if first is None:
+                    first = last = pos if pos is not None else next_pos if next_pos is not None else start
+                before, after = new[0][0], space
+                text = ''.join(t for s in new for t in s)[len(before):]
+                if pos is not None and not fits(pos, first, before):
+                    text = before + text
+                    first = pos
+                if next_pos is not None and not fits(last, next_pos, after):
+                    text += after
+                    last = next_pos
+                yield first, last, text
+            elif first is not None:
+                if pos is None:
+                    yield first, last if next_pos is None else min(next_pos, max(last, end)), ''
+                elif next_pos is None or fits(last, next_pos, space):
+                    yield max(pos, min(first, start)), last, ''
+                elif fits(pos, first, space):
+                    yield first, min(next_pos, max(last, end)), ''
+                else:
+                    yield pos, next_pos, space
+            elif (changed or next_changed) and space and pos == next_pos:
+                yield pos, pos, space
+
         for point in self.points():
-            space = collapse_whitespace((insert_after, point.space_before))
-            if point.pos is None:
-                # new element
-                text = point.text()
-                if text:
-                    yield pos, pos, space + text
-                    insert_after = point.space_after
-            else:
-                # existing element
-                if point.pos > pos:
-                    # see if old content needs to be deleted between pos and point.pos
-                    del_pos = del_end = pos
-                    for t in tokens:
-                        if t.pos >= point.pos:
-                            pos = t.pos
-                            break
-                        del_end = t.end
-                    if del_end > del_pos:
-                        if space and del_end < pos:
-                            del_end = pos   # unparsed space can be ditched
-                        yield del_pos, del_end, space
-                elif space:
-                    yield point.pos, point.pos, space
-                # modified?
+            space = collapse_whitespace((space, point.space_before))
+            existing = point.pos is not None and (pos is None or point.pos >= pos)
+            text = point.text() if point.modified or not existing else None
+            if existing and text != '':
+                yield from changes(point.pos, point.modified)
                 if point.modified:
-                    yield point.pos, point.end, point.text()
+                    yield point.pos, point.end, text
                 pos = point.end
-                insert_after = point.space_after
-        if pos < end:
-            yield pos, end, ''
+                changed = point.modified
+                new.clear()
+                space = point.space_after
+            elif text:
+                new.append((space, text))
+                space = point.space_after
+            else:
+                space = collapse_whitespace((space, point.space_after))
+        yield from changes(None, False)
 
     def edit(self, document, context=None, start=None, end=None,):
         """Write back the modifications to the original parce document.
@@ -686,7 +725,7 @@ class Element(Node, metaclass=ElementType):
             context = document.builder().root
         n = 0
         with document:
-            for pos, end, text in self.edits(context, start, end):
+            for pos, end, text in self.edits(context, start, end, document):
                 document[pos:end] = text
                 n += 1
         return n
-- 
2.43.0


From 5f393c0137751417cc5101638796028e83f9e255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 34/80] fix: setting scaling removes all other scalings of a
 duration

---
 quickly/dom/lily.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 1c6da0c..94a271e 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -148,7 +148,7 @@ class HandleDuration(element.Element):
     @scaling.setter
     def scaling(self, value):
         for d in self / Duration:
-            scaling = d / DurationScaling
+            scaling = list(d / DurationScaling)
             for s in scaling:
                 if value in (1, None):
                     d.remove(s)
@@ -156,7 +156,7 @@ class HandleDuration(element.Element):
                     s.head = fractions.Fraction(value).limit_denominator()
                 else:
                     s.head = value
-                for s in scaling:
+                for s in scaling[1:]:
                     d.remove(s)
                 return
             if value not in (1, None):
-- 
2.43.0


From 7d03c35e9ff54502a1e7d72ecbdbaaae51e49e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 35/80] fix: keep adjacent steps in a chord modifier apart

---
 quickly/dom/lily.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 94a271e..2c6e088 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -1862,11 +1862,23 @@ class AddSteps(element.HeadElement):
     r"""Contains the steps to be added in chordmode."""
     head = ":"
 
+    def concat_space(self, node, next_node):
+        """Keep two adjacent words or numbers apart."""
+        if type(node) is type(next_node) and not isinstance(node, Separator):
+            return ' '
+        return super().concat_space(node, next_node)
+
 
 class RemoveSteps(element.HeadElement):
     r"""Contains the steps to be added in chordmode."""
     head = "^"
 
+    def concat_space(self, node, next_node):
+        """Keep two adjacent words or numbers apart."""
+        if type(node) is type(next_node) and not isinstance(node, Separator):
+            return ' '
+        return super().concat_space(node, next_node)
+
 
 class Qualifier(element.TextElement):
     """A qualifier like ``maj`` in chord mode."""
-- 
2.43.0


From 82c49dbeba2eafb3f032d2ac81f857764add5b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 36/80] fix: pasting an absent duration on a note without
 duration leaves it alone

---
 quickly/rhythm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index a96747e..aaeea32 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -177,8 +177,8 @@ class RhythmImplicitPerLine(EditRhythm):
             if not prev:
                 # the first in the range; is there a Durable before it on the line?
                 prev = [lily.previous_duration(node), None]
-                for n in node < lily.Durable:
-                    if n.duration_sets_previous and not isinstance(n.parent, lily.ChordBody):
+                for n in lily._preceding_durables(node):
+                    if n.duration_sets_previous:
                         prev[1] = self.find_block(n)
                         break
             if prev[1] != block:
@@ -324,7 +324,7 @@ class PasteRhythm(EditRhythm):
                     prev = duration
             elif self.may_remove(node):
                 del node.duration
-            elif prev:
+            elif prev and node.duration is not None:
                 node.duration_scaling = prev
 
 
-- 
2.43.0


From 41bcc270094d4b4ac8fae577bcefc214001cd0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 37/80] fix: previous duration is that of the closest preceding
 durable in the text

---
 quickly/dom/lily.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 2c6e088..116cc62 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -3307,6 +3307,30 @@ def make_list_node(value):
         return Int(value)
 
 
+def _preceding_durables(node):
+    """Yield the Durables before the node, backwards in text order.
+
+    This also finds a Durable in e.g. a ``\\markup \\score`` that is attached to
+    a Durable, and the Durable the ``node`` itself is attached to. Notes inside
+    a chord are not yielded, because the chord has the duration.
+
+    """
+    def durables(n):
+        if not isinstance(n, ChordBody):
+            for child in reversed(n):
+                yield from durables(child)
+        if isinstance(n, Durable):
+            yield n
+
+    while node.parent:
+        if not isinstance(node.parent, ChordBody):
+            for n in node.left_siblings():
+                yield from durables(n)
+            if isinstance(node.parent, Durable) and not isinstance(node, ChordBody):
+                yield node.parent
+        node = node.parent
+
+
 def duration_getter():
     """Return a callable that returns the (duration, scaling) tuple of a
     :class:`Durable`.
@@ -3337,7 +3361,7 @@ def duration_getter():
             return duration
 
         new = {durable}
-        for prev in durable < Durable:
+        for prev in _preceding_durables(durable):
             if prev.duration_sets_previous:
                 dur = prev.duration_scaling
                 if dur:
@@ -3371,7 +3395,7 @@ def previous_duration(node):
     notes without duration.
 
     """
-    for n in node < Durable:
+    for n in _preceding_durables(node):
         if n.duration_sets_previous:
             for d in n / Duration:
                 return d.duration()
-- 
2.43.0


From 04d643d3d7a45675e532c373ab9a05680880bde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 38/80] fix: duration between nodes applied a transform twice;
 cursor position after the last node

---
 quickly/time.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/quickly/time.py b/quickly/time.py
index dc231d3..54e7f32 100644
--- a/quickly/time.py
+++ b/quickly/time.py
@@ -221,9 +221,9 @@ class Time:
         # common part, just follow transform
         index = -1
         for index, (pos, end) in enumerate(zip(start_trail, end_trail)):
-            context = context.enter(node)
             if pos != end:
                 break
+            context = context.enter(node)
             node = node[pos]
         else:
             index += 1
@@ -247,9 +247,10 @@ class Time:
         dom = cursor.document().get_transform(self.wait)
         if dom:
             node = dom.find_descendant_right(cursor.pos)
-            c = self._music_child(node)
-            if c:
-                return self.position(c)
+            if node:
+                c = self._music_child(node)
+                if c:
+                    return self.position(c)
 
     def cursor_duration(self, cursor):
         """Return a :class:`Result` two-tuple(node, time) or None.
-- 
2.43.0


From 0155eddf09e39b1103fcc065e84fcb62ca834075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 39/80] fix: the alternatives of a repeat come after the
 repeated music

---
 quickly/dom/lily.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 116cc62..c1e2079 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -1292,6 +1292,10 @@ class Repeat(element.HeadElement, Music):
     head = r'\repeat'
     space_between = space_after_head = " "
 
+    def is_sequential(self):
+        """Return True, the alternatives come after the repeated music."""
+        return True
+
     def signatures(self):
         yield Symbol, INT, MUSIC
         yield Symbol, INT, MUSIC, Alternative
-- 
2.43.0


From 09575d1a9d345d007905c1d8e152230d51dcc6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:45 +0000
Subject: [PATCH 40/80] fix: comments after the value of \version, \language
 and variables are no part of the value

---
 quickly/lang/lilypond.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 58ce73b..e9635d2 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -265,9 +265,18 @@ class LilyPondTransform(base.Transform):
                 yield i.obj # can be a Scheme or String
 
     def list(self, items):
-        """A List, String, Int, Symbol, or Scheme element."""
+        """A Python list with a List, String, Int, Symbol, or Scheme element.
+
+        The list context in the token tree also contains the comments that
+        follow; those are no part of the value, and are added to the list.
+
+        """
         nodes = list(self._list_nodes(items))
-        return nodes[0] if len(nodes) == 1 else lily.List(*nodes)
+        comments = []
+        while len(nodes) > 1 and isinstance(nodes[-1], base.Comment):
+            comments.append(nodes.pop())
+        node = nodes[0] if len(nodes) == 1 else lily.List(*nodes)
+        return [node, *reversed(comments)]
 
     start_list = None   # lexicon never creates tokens
 
@@ -386,6 +395,8 @@ class LilyPondTransform(base.Transform):
                     yield result
             elif isinstance(i.obj, element.Element):
                 yield i.obj
+            elif i.name == "list":
+                yield from i.obj
             elif i.name == "markup":
                 yield from self.create_markup(i.obj, items)
 
@@ -1182,9 +1193,16 @@ class MusicBuilder:
         """Called for ``script`` context: an articulation."""
         self.add_articulation(obj)
 
-    @_context("string", "scheme", "list")
+    @_context("list")
+    def list(self, nodes):
+        """Called for ``list`` context: a value, and maybe comments."""
+        yield from self.string_scheme(nodes[0])
+        for node in nodes[1:]:
+            yield from self.comment(node)
+
+    @_context("string", "scheme")
     def string_scheme(self, obj):
-        """Called for ``string``, ``scheme`` or ``list`` context."""
+        """Called for ``string`` or ``scheme`` context."""
         if self._events:
             # after a direction: an articulation
             if not self.add_event_argument(obj):
-- 
2.43.0


From fc7253009ce5beada538f86c2eee94bc9d211b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:45 +0000
Subject: [PATCH 41/80] fix: undefined names in markup factory functions,
 with_link used with-color

---
 quickly/dom/markup.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quickly/dom/markup.py b/quickly/dom/markup.py
index 656fcda..f7d5146 100644
--- a/quickly/dom/markup.py
+++ b/quickly/dom/markup.py
@@ -111,15 +111,15 @@ def tied_lyric(text):
 
 
 def fret_diagram(s):
-    return c_('fret-diagram', _s(scm.String(s)))
+    return _c('fret-diagram', _s(scm.String(s)))
 
 
 def fret_diagram_terse(s):
-    return c_('fret-diagram-terse', _s(scm.String(s)))
+    return _c('fret-diagram-terse', _s(scm.String(s)))
 
 
 def fret_diagram_verbose(element):
-    return c_('fret-diagram-verbose', element)
+    return _c('fret-diagram-verbose', element)
 
 
 def fromproperty(name):
@@ -242,7 +242,7 @@ def translate_scaled(x, y, *args):
 
 
 def with_link(label, *args):
-    return _c('with-color', _sym(label), _create_list(args))
+    return _c('with-link', _sym(label), _create_list(args))
 
 
 def with_url(url, *args):
@@ -250,7 +250,7 @@ def with_url(url, *args):
 
 
 def woodwind_diagram(instrument, scheme_commands):
-    return _c('woodwind-diagram', _sym(label), scheme_commands)
+    return _c('woodwind-diagram', _sym(instrument), scheme_commands)
 
 
 def draw_squiggle_line(sqlength, x, y, eqend):
-- 
2.43.0


From c73b58e848afedb2f2ccc55be75b73148e60464c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:45 +0000
Subject: [PATCH 42/80] fix: adding a child at its place when there are
 comments in between

---
 quickly/dom/element.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index 205a040..4435716 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -777,11 +777,12 @@ class Element(Node, metaclass=ElementType):
         for order in self.child_order():
             for index, cls in enumerate(order):
                 if isinstance(node, cls):
-                    skip = order[:index]
-                    for n in self ^ skip:
-                        i = self.index(n)
-                        self.insert(i, node)
-                        return
+                    pos = 0
+                    for i, n in enumerate(self):
+                        if isinstance(n, order[:index]):
+                            pos = i + 1
+                    self.insert(pos, node)
+                    return
         self.append(node)
 
     def indent_children(self):
-- 
2.43.0


From f646eecba90dbfe398d2efa2796848a09bc4dda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:45 +0000
Subject: [PATCH 43/80] fix: octave 0 removes the Octave, Duration of After
 before the event, IdentifierRef.with_name()

---
 quickly/dom/lily.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index c1e2079..80bdfa9 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -242,7 +242,10 @@ class Pitchable(element.TextElement, Music):
     @octave.setter
     def octave(self, num):
         for n in self / Octave:
-            n.head = num
+            if num == 0:
+                self.remove(n)
+            else:
+                n.head = num
             return
         if num != 0:
             self.add(Octave(num))
@@ -1091,7 +1094,7 @@ class IdentifierRef(base.BackslashCommand, Reference):
         simple symbol.
 
         """
-        v = cls()
+        v = cls('')
         v.set_name(name)
         return v
 
@@ -1607,6 +1610,9 @@ class After(element.HeadElement, HandleDuration, Music):
     r"""An ``\after``. Must have a Duration child and an event."""
     head = r'\after'
 
+    def child_order(self):
+        yield Duration, element.Element
+
 
 class Q(element.HeadElement, Durable):
     """A ``q``, repeating the previous chord.
-- 
2.43.0


From 34d10d00f1c3ce0c5a62bcbce61868359bcfa7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:50 +0000
Subject: [PATCH 44/80] fix: the last definition of a variable is the one that
 counts

---
 quickly/dom/lily.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 80bdfa9..7250e53 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -510,11 +510,15 @@ class _ConvertUnpitchedToInt(element.Element):
 class HandleAssignments(element.Element):
     """Mixin class to handle Assignment children in a convenient way."""
     def find_assignment(self, name):
-        """Find the Assignment with the specified name."""
-        for n in self/Assignment:
-            for v in n/Identifier:
-                if v.get_name() == name:
-                    return n
+        """Find the Assignment with the specified name.
+
+        If there are multiple, the last one is returned, because that
+        determines the value of the variable.
+
+        """
+        for n in reversed(self):
+            if isinstance(n, Assignment) and n.get_name() == name:
+                return n
 
     def get_variable(self, name):
         """Convenience method to find the value of the named variable.
@@ -560,18 +564,18 @@ class HandleAssignments(element.Element):
         """Convenience method to delete a variable assignment.
 
         If an Assignment exists with the named variable, it is removed from its
-        parent.
+        parent. If there are multiple, they are all removed.
 
         """
-        assignment = self.find_assignment(name)
-        if assignment:
-            self.remove(assignment)
+        for n in list(self/Assignment):
+            if n.get_name() == name:
+                self.remove(n)
 
     def variables(self):
         """Convenience method to return a list of the available variable names."""
-        return list(v.get_name()
+        return list(dict.fromkeys(v.get_name()
             for n in self/Assignment
-                for v in n/Identifier)
+                for v in n/Identifier))
 
 
 class Document(HandleAssignments, base.Document):
-- 
2.43.0


From c4913673b5061cdb45d43bea3410d5b19edc9c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:50 +0000
Subject: [PATCH 45/80] fix: value of an assignment with a comment, and of a
 reference that waits

---
 quickly/dom/lily.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 7250e53..e36a5aa 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -423,7 +423,7 @@ class Reference(element.Element):
         :meth:`get_value_with_scope`.
 
         """
-        result = self.get_value_with_scope(scope)
+        result = self.get_value_with_scope(scope, wait)
         if result:
             return result[0]
 
@@ -1019,7 +1019,9 @@ class Assignment(element.Element):
     def get_value(self):
         """Return the value after the equalsign."""
         for child in self / EqualSign:
-            return child.right_sibling()
+            for node in child.right_siblings():
+                if not isinstance(node, base.Comment):
+                    return node
 
 
 class Identifier(List):
-- 
2.43.0


From 8242480afb919fcd89d3281771562a3b14c1616a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:50 +0000
Subject: [PATCH 46/80] fix: Scheme value of a variable or property can be read

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index e36a5aa..d61710b 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -3501,7 +3501,7 @@ def create_value_from_element(node):
         if len(node) == 1:
             node = node[0]
             if isinstance(node, (scm.Bool, scm.Number, scm.String)):
-                return node.value
+                return node.head
 
 
 def get_num_value(node):
-- 
2.43.0


From 65f6a9cb7e54699012b2ad121b055dc4a70f9e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 47/80] fix: commands like \include in header and paper blocks
 are not lost

---
 quickly/lang/lilypond.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index e9635d2..4f95a3b 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -107,11 +107,11 @@ class LilyPondTransform(base.Transform):
 
     def header(self, items):
         """A Header element."""
-        return self.create_block(lily.Header, items, assignments=True)
+        return self.create_block(lily.Header, items, music=True, assignments=True)
 
     def paper(self, items):
         """A Paper element."""
-        return self.create_block(lily.Paper, items, assignments=True)
+        return self.create_block(lily.Paper, items, music=True, assignments=True)
 
     def layout(self, items):
         """A Layout element."""
-- 
2.43.0


From 228396d17ec6ce1f3cca0bc3ada1767b0132353e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:54 +0000
Subject: [PATCH 48/80] fix: empty included documents are found too

---
 quickly/dom/scope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/scope.py b/quickly/dom/scope.py
index 1bdcda1..16e4dbd 100644
--- a/quickly/dom/scope.py
+++ b/quickly/dom/scope.py
@@ -91,7 +91,7 @@ class Scope:
         """
         for u in self.urls(url):
             doc = self.get_document(u)
-            if doc:
+            if doc is not None:
                 return type(self)(doc, self, self.factory, node)
 
     def ancestors(self):
-- 
2.43.0


From d9b4abcc23a65c9a8b6028079b35b0e34d150913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:56 +0000
Subject: [PATCH 49/80] fix: \tag, \keepWithTag and \removeWithTag are music,
 so the music in them has a length

---
 quickly/dom/lily.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index d61710b..1b638ed 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2557,7 +2557,7 @@ class FigureAlteration(element.MappingElement):
     }
 
 
-class Tag(element.HeadElement):
+class Tag(element.HeadElement, Music):
     r"""A ``\tag`` command."""
     head = r'\tag'
 
@@ -2565,7 +2565,7 @@ class Tag(element.HeadElement):
         yield (Symbol, String, Scheme), MUSIC
 
 
-class KeepWithTag(element.HeadElement):
+class KeepWithTag(element.HeadElement, Music):
     r"""A ``\keepWithTag`` command."""
     head = r'\keepWithTag'
 
@@ -2573,7 +2573,7 @@ class KeepWithTag(element.HeadElement):
         yield (Symbol, String, Scheme), MUSIC
 
 
-class RemoveWithTag(element.HeadElement):
+class RemoveWithTag(element.HeadElement, Music):
     r"""A ``\removeWithTag`` command."""
     head = r'\removeWithTag'
 
-- 
2.43.0


From 2d55e7f0100e9b2aaf30b6d6b25bb60487319ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:58 +0000
Subject: [PATCH 50/80] fix: \volta takes a plain number

---
 quickly/dom/lily.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 1b638ed..bfaa34a 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -1337,13 +1337,13 @@ class Unfolded(element.HeadElement, Music):
         yield MUSIC,
 
 
-class Volta(element.HeadElement, Music):
+class Volta(_ConvertUnpitchedToInt, element.HeadElement, Music):
     r"""The ``\volta`` command."""
     head = r'\volta'
     space_between = space_after_head = " "
 
     def signatures(self):
-        yield (List, Scheme), MUSIC
+        yield (List, Scheme, Int, Unpitched), MUSIC
 
 
 class Transposition(element.HeadElement, Music):
-- 
2.43.0


From e2f31a89a4287af739337f3c76612b4c8638065e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:00 +0000
Subject: [PATCH 51/80] fix: comments are no arguments of \tag, \tweak or
 \shape, and a complete \tag or \shape before a music variable or markup is
 not an articulation

---
 quickly/lang/lilypond.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 4f95a3b..acdc998 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -810,10 +810,14 @@ class MusicBuilder:
             self._articulations = lily.Articulations()
         self._articulations.append(art)
 
+    def argument_count(self, node):
+        """Return the number of children of the event node, not counting comments."""
+        return sum(1 for n in node if not isinstance(n, base.Comment))
+
     def add_spanner_id(self, node):
         """Return True if the node could be added to a spanner id that's being built."""
         e = self._events
-        if e and isinstance(e[-1], lily.SpannerId) and len(e[-1]) == 0:
+        if e and isinstance(e[-1], lily.SpannerId) and self.argument_count(e[-1]) == 0:
             e[-1].append(node)
             return True
         return False
@@ -821,7 +825,7 @@ class MusicBuilder:
     def add_tweak(self, node):
         """Return True if the node could be added to a Tweak that's being built."""
         e = self._events
-        if e and isinstance(e[-1], lily.Tweak) and len(e[-1]) < 2:
+        if e and isinstance(e[-1], lily.Tweak) and self.argument_count(e[-1]) < 2:
             e[-1].append(node)
             return True
         return False
@@ -829,7 +833,7 @@ class MusicBuilder:
     def add_tag(self, node):
         r"""Return True if the node could be added to a ``\tag`` command that's being built."""
         e = self._events
-        if e and isinstance(e[-1], lily.Tag) and len(e[-1]) < 1:
+        if e and isinstance(e[-1], lily.Tag) and self.argument_count(e[-1]) < 1:
             e[-1].append(node)
             return True
         return False
@@ -837,11 +841,25 @@ class MusicBuilder:
     def add_shape(self, node):
         r"""Return True if the node could be added to a ``\shape`` command that's being built."""
         e = self._events
-        if e and isinstance(e[-1], lily.Shape) and len(e[-1]) < 2:
+        if e and isinstance(e[-1], lily.Shape) and self.argument_count(e[-1]) < 2:
             e[-1].append(node)
             return True
         return False
 
+    def event_complete(self):
+        r"""Return True if a ``\tag`` or ``\shape`` command has its arguments.
+
+        Without a direction, it is then meant for the next music expression.
+
+        """
+        e = self._events
+        if e and not isinstance(e[0], (lily.Direction, lily.SpannerId)):
+            if isinstance(e[-1], lily.Tag):
+                return self.argument_count(e[-1]) == 1
+            elif isinstance(e[-1], lily.Shape):
+                return self.argument_count(e[-1]) == 2
+        return False
+
     def add_event_argument(self, node):
         r"""Try to add the node as argument to a spanner_id, tweak, tag, or shape."""
         return self.add_spanner_id(node) or \
@@ -1203,7 +1221,7 @@ class MusicBuilder:
     @_context("string", "scheme")
     def string_scheme(self, obj):
         """Called for ``string`` or ``scheme`` context."""
-        if self._events:
+        if self._events and not self.event_complete():
             # after a direction: an articulation
             if not self.add_event_argument(obj):
                 self.add_articulation(obj)
@@ -1216,7 +1234,7 @@ class MusicBuilder:
     def markup(self, obj):
         """Called for ``markup`` context: read arguments from items."""
         for node in self.transform.create_markup(obj, self.items):
-            if self._events:
+            if self._events and not self.event_complete():
                 # after a direction: add to the note
                 self.add_articulation(node)
             else:
@@ -1227,7 +1245,7 @@ class MusicBuilder:
     @_context("identifier_ref")
     def identifier_ref(self, obj):
         """Called for ``identifier_ref`` context: maybe articulation."""
-        if self._events:
+        if self._events and not self.event_complete():
             # after a direction: add as articulation
             self.add_articulation(obj)
         else:
-- 
2.43.0


From cbb2955e8b34758568e5f01c210ce4d8aaa96e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:37 +0000
Subject: [PATCH 52/80] fix: new lines align with a child of the block, not
 with a deeper descendant

---
 quickly/dom/indent.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/quickly/dom/indent.py b/quickly/dom/indent.py
index b8a59cf..f435638 100644
--- a/quickly/dom/indent.py
+++ b/quickly/dom/indent.py
@@ -140,8 +140,9 @@ class Indenter:
     def output_node(self, node, index=-1):
         """*(Internal.)* Output one node and its children.
 
-        The index, if given, is the index of this node in its parent. This is
-        used to get additional indenting hints for the node.
+        The index, if given, is the index of this node in its parent, if the
+        parent is an indenting node. This is used to get additional indenting
+        hints for the node.
 
         """
         head = node.write_head()
@@ -160,11 +161,13 @@ class Indenter:
             self.enter_indent(node)
 
         if has_children:
+            # only children of an indenting node can be aligned with; a node
+            # without text starts with its first child
             n = node[0]
-            self.output_node(n, 0)
+            self.output_node(n, 0 if indent else -1 if head else index)
             for i, m in enumerate(node[1:], 1):
                 self.add_whitespace(node.concat_space(n, m))
-                self.output_node(m, i)
+                self.output_node(m, i if indent else -1)
                 n = m
 
         if indent:
-- 
2.43.0


From 45070798c87e1a6201a601465570e22ae6ce2c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:40 +0000
Subject: [PATCH 53/80] fix: alignment after a block that was closed on the
 same line

---
 quickly/dom/indent.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/indent.py b/quickly/dom/indent.py
index f435638..28c711b 100644
--- a/quickly/dom/indent.py
+++ b/quickly/dom/indent.py
@@ -210,14 +210,15 @@ class Indenter:
 
         if self._indenters:
             # add new indent levels
-            new_indent = current_indent = self.current_indent()
+            new_indent = self.current_indent()
+            line_indent = self._output[-1].indent
             for i in self._indenters:
                 new_indent += self.indent_width
                 pos = i.get_align_pos()
                 if pos is not None:
                     align_indent = self._output[-1].offset(pos)
                     if align_indent <= self.max_align_indent:
-                        new_indent = current_indent + align_indent
+                        new_indent = line_indent + align_indent
                 self._indent_stack.append(new_indent)
             self._indenters.clear()
 
-- 
2.43.0


From e85b4705eac198cf63850461a4f92d1faa17fd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 54/80] fix: alignment after text with newlines

---
 quickly/dom/indent.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/quickly/dom/indent.py b/quickly/dom/indent.py
index 28c711b..6565d79 100644
--- a/quickly/dom/indent.py
+++ b/quickly/dom/indent.py
@@ -61,8 +61,17 @@ class _Block:
         self.line = []
 
     def offset(self, pos):
-        """Get the total length of the text in the first ``pos`` pieces."""
-        return sum(map(len, self.line[:pos]))
+        """Get the total length of the text in the first ``pos`` pieces.
+
+        If there are newlines in the text, counts from the last one.
+
+        """
+        return len(''.join(self.line[:pos]).rpartition('\n')[2])
+
+    def column(self, pos):
+        """Get the column of the text after the first ``pos`` pieces."""
+        multiline = any('\n' in text for text in self.line[:pos])
+        return (0 if multiline else self.indent) + self.offset(pos)
 
     def output(self):
         """Get the output line."""
@@ -211,14 +220,13 @@ class Indenter:
         if self._indenters:
             # add new indent levels
             new_indent = self.current_indent()
-            line_indent = self._output[-1].indent
+            line = self._output[-1]
             for i in self._indenters:
                 new_indent += self.indent_width
                 pos = i.get_align_pos()
                 if pos is not None:
-                    align_indent = self._output[-1].offset(pos)
-                    if align_indent <= self.max_align_indent:
-                        new_indent = line_indent + align_indent
+                    if line.offset(pos) <= self.max_align_indent:
+                        new_indent = line.column(pos)
                 self._indent_stack.append(new_indent)
             self._indenters.clear()
 
-- 
2.43.0


From b1e979afaaa0882878e4452b4969dbbb6603ac0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:44 +0000
Subject: [PATCH 55/80] fix: alignment on the first line, when whitespace is
 left out

---
 quickly/dom/indent.py | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/quickly/dom/indent.py b/quickly/dom/indent.py
index 6565d79..a0512b1 100644
--- a/quickly/dom/indent.py
+++ b/quickly/dom/indent.py
@@ -133,18 +133,9 @@ class Indenter:
         self.create_new_block()
         self.output_node(node)
 
-        # strip preceding space
-        result = self._output
-        while result:
-            if result[0].line:
-                if result[0].line[0].isspace():
-                    del result[0].line[0]
-                else:
-                    break
-            else:
-                del result[0]
-
-        return ''.join(block.output() for block in result)
+        if not self._output[0].line:
+            return ''
+        return ''.join(block.output() for block in self._output)
 
     def output_node(self, node, index=-1):
         """*(Internal.)* Output one node and its children.
@@ -237,11 +228,13 @@ class Indenter:
 
     def output_space(self):
         """*(Internal.)* Output whitespace. Newlines start a new output line."""
-        for c in util.collapse_whitespace(self._whitespace):
-            if c == '\n':
-                self.create_new_block()
-            else:
-                self._output[-1].line.append(c)
+        # no whitespace before the first text
+        if len(self._output) > 1 or self._output[0].line:
+            for c in util.collapse_whitespace(self._whitespace):
+                if c == '\n':
+                    self.create_new_block()
+                else:
+                    self._output[-1].line.append(c)
         self._whitespace.clear()
 
     def output_head(self, text, index=-1, override=None):
-- 
2.43.0


From 09707c74c7477eda175abe02c1ac7f7c6f22d90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:46 +0000
Subject: [PATCH 56/80] fix: add_newlines() with a missing closing delimiter

---
 quickly/dom/util.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/quickly/dom/util.py b/quickly/dom/util.py
index ebf243d..54a22f0 100644
--- a/quickly/dom/util.py
+++ b/quickly/dom/util.py
@@ -113,9 +113,10 @@ def add_newlines(node, text, block_separator='\n', max_blank_lines=10):
         except AttributeError:
             pass
         else:
-            s = get_newlines(head_origin[0].pos)
-            if s and whitespace_key(s) > whitespace_key(node.space_before):
-                node.space_before = s
+            if head_origin:
+                s = get_newlines(head_origin[0].pos)
+                if s and whitespace_key(s) > whitespace_key(node.space_before):
+                    node.space_before = s
 
         for n in node:
             handle_node(n)
@@ -125,9 +126,10 @@ def add_newlines(node, text, block_separator='\n', max_blank_lines=10):
         except AttributeError:
             pass
         else:
-            s = get_newlines(tail_origin[0].pos)
-            if s and whitespace_key(s) > whitespace_key(node.space_before_tail):
-                node.space_before_tail = s
+            if tail_origin:     # can be empty when the tail was missing
+                s = get_newlines(tail_origin[0].pos)
+                if s and whitespace_key(s) > whitespace_key(node.space_before_tail):
+                    node.space_before_tail = s
 
     current_block = -1
     next_block()
-- 
2.43.0


From 74d4731480363c17f2757851dadbe3ff240f0867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:48 +0000
Subject: [PATCH 57/80] fix: add_newlines() ignores the newlines inside a
 multiline text

---
 quickly/dom/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quickly/dom/util.py b/quickly/dom/util.py
index 54a22f0..6453ef0 100644
--- a/quickly/dom/util.py
+++ b/quickly/dom/util.py
@@ -117,6 +117,7 @@ def add_newlines(node, text, block_separator='\n', max_blank_lines=10):
                 s = get_newlines(head_origin[0].pos)
                 if s and whitespace_key(s) > whitespace_key(node.space_before):
                     node.space_before = s
+                get_newlines(head_origin[-1].end)   # skip newlines in the text
 
         for n in node:
             handle_node(n)
-- 
2.43.0


From 36cf8108952d388fb5dc21d9f886c121ccb710d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:50 +0000
Subject: [PATCH 58/80] fix: a multiline Scheme comment ends with !#

---
 quickly/dom/scm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/scm.py b/quickly/dom/scm.py
index e863bf9..7ce0809 100644
--- a/quickly/dom/scm.py
+++ b/quickly/dom/scm.py
@@ -90,11 +90,11 @@ class MultilineComment(base.MultilineComment):
     """A multiline comment in Scheme after ``#!``."""
     @classmethod
     def read_head(cls, origin):
-        end = -1 if origin[-1] == "#!" else None
+        end = -1 if origin[-1] == "!#" else None
         return ''.join(t.text for t in origin[1:end])
 
     def write_head(self):
-        return '#!{}#!'.format(self.head)
+        return '#!{}!#'.format(self.head)
 
 
 class Char(element.TextElement):
-- 
2.43.0


From cc1bc0cf7fe74fccee531205fa05de286e1d1153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:24 +0000
Subject: [PATCH 59/80] fix: a node is not in a range if only its children are

A range starting at a descendant of the first child was considered full,
although the ancestors of the start node come before it.
---
 quickly/node.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/quickly/node.py b/quickly/node.py
index 34a40cd..efccf09 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -1074,6 +1074,8 @@ class Range(Common):
             return True
         elif level.index > -1:
             level = level.child()
+            if level.start_trail:
+                return False    # the node itself is before the start node
         return level.start_in_range() and level.end_in_range()
 
     def _goto_trail(self, trail):
@@ -1294,7 +1296,7 @@ class Range(Common):
             for i in range(level.start, level.end+1):
                 text = "{:>3} {}".format(i, repr(level.node[i]))
                 child = level.child(i)  # make a level child but do not store it
-                if not child.start_in_range() or not child.end_in_range():
+                if child.start_trail or not child.end_in_range():
                     text += " (partly)"
                 if i == level.index:
                     text += "  <----"
@@ -1373,8 +1375,9 @@ class Range(Common):
             return type(self)(self.node[index], start_trail, end_trail, depth)
 
         def start_in_range(self):
-            """Return True if this node and its descendants completely fall within the range start boundary."""
-            return not (self.start_trail and any(self.start_trail[self.depth:]))
+            """Return True if the descendants of this node completely fall within the range start boundary."""
+            # an ancestor of the start node (below this node) is not in the range
+            return not self.start_trail or list(self.start_trail[self.depth:]) == [0]
 
         def end_in_range(self):
             """Return True if this node and its descendants completely fall within the range end boundary."""
-- 
2.43.0


From 7e29545f9437fe181abb7112fa41da072b3b8c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:26 +0000
Subject: [PATCH 60/80] fix: editing an empty document

---
 quickly/dom/edit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quickly/dom/edit.py b/quickly/dom/edit.py
index 1ac5520..8fcdffa 100644
--- a/quickly/dom/edit.py
+++ b/quickly/dom/edit.py
@@ -26,6 +26,7 @@ parce Document in different ways.
 import parce.document
 
 from ..node import Range
+from .base import Document
 from .element import Element
 
 
@@ -106,6 +107,8 @@ class Edit:
 
         """
         d = cursor.document().get_transform(True)
+        if d is None:
+            d = Document()  # there is no DOM for an empty document
         r = start = end = None
         if cursor.has_selection():
             # find the first and the last node that fall within the selection
-- 
2.43.0


From 7f6377a842e4e440cf59b503523d7268df5cc7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:29 +0000
Subject: [PATCH 61/80] fix: editing a selection up to the end of the document
 (Cursor.end is None)

---
 quickly/dom/edit.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/quickly/dom/edit.py b/quickly/dom/edit.py
index 8fcdffa..1cfbfbe 100644
--- a/quickly/dom/edit.py
+++ b/quickly/dom/edit.py
@@ -111,13 +111,14 @@ class Edit:
             d = Document()  # there is no DOM for an empty document
         r = start = end = None
         if cursor.has_selection():
+            pos, end_pos = cursor.selection()
             # find the first and the last node that fall within the selection
-            start_node = d.find_descendant_right(cursor.pos)
-            while start_node and start_node.end > cursor.end:
-                start_node = start_node.find_descendant_right(cursor.pos)
-            end_node = d.find_descendant_left(cursor.end)
-            while end_node and end_node.pos < cursor.pos:
-                end_node = end_node.find_descendant_left(cursor.end)
+            start_node = d.find_descendant_right(pos)
+            while start_node and start_node.end > end_pos:
+                start_node = start_node.find_descendant_right(pos)
+            end_node = d.find_descendant_left(end_pos)
+            while end_node and end_node.pos < pos:
+                end_node = end_node.find_descendant_left(end_pos)
             if start_node and end_node:
                 start = start_node.pos
                 end = end_node.end
@@ -128,7 +129,7 @@ class Edit:
             else:
                 # no node within the selection
                 r = Range(d, None, [])
-                start, end = cursor.pos, cursor.end
+                start, end = pos, end_pos
         elif self.range_from_cursor:
             start_node = d.find_descendant_right(cursor.pos)
             if start_node:
-- 
2.43.0


From 3764756fe3259a37cbf9fcd9ffd70e107b7fc01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:31 +0000
Subject: [PATCH 62/80] fix: don't change the duration after the end of the
 selected range

---
 quickly/rhythm.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index aaeea32..9c1613e 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -39,9 +39,25 @@ from .duration import duration
 class EditRhythm(edit.Edit):
     """Base class for rhythm editing operations."""
     @staticmethod
-    def durables(r):
-        """Yield all Durable instances in range."""
+    def nodes(r):
+        """Yield all nodes in range of which the duration is also in range.
+
+        """
+        # find the nodes of which the duration is after the end of the range
+        partial = set()
+        end_node = r.end_node()
+        if end_node:
+            for n in end_node.ancestors():
+                if n not in r and (isinstance(n, lily.Durable) or any(d not in r for d in n / lily.Duration)):
+                    partial.add(id(n))
         for n in r.nodes():
+            if id(n) not in partial:
+                yield n
+
+    @classmethod
+    def durables(cls, r):
+        """Yield all Durable instances in range."""
+        for n in cls.nodes(r):
             if isinstance(n, lily.Durable):
                 # skip the notes inside a chord, the chord has the duration
                 if isinstance(n.parent, lily.ChordBody):
@@ -239,7 +255,7 @@ class RhythmTransform(EditRhythm):
 
     def edit_range(self, r):
         """Transform all durations."""
-        for n in list(r.nodes()):
+        for n in list(self.nodes(r)):
             if isinstance(n, lily.HandleDuration):
                 dur = n.duration_scaling
                 if dur:
-- 
2.43.0


From d19b50cfef904517c2a648a25094d0d22932988d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:33 +0000
Subject: [PATCH 63/80] fix: editing a single note as element also edits the
 note itself

---
 quickly/rhythm.py    | 4 ++++
 quickly/transpose.py | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index 9c1613e..90d5d52 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -42,7 +42,11 @@ class EditRhythm(edit.Edit):
     def nodes(r):
         """Yield all nodes in range of which the duration is also in range.
 
+        If the range has no boundaries, the ancestor itself is also yielded.
+
         """
+        if r.start_trail is None and r.end_trail is None:
+            yield r.ancestor()
         # find the nodes of which the duration is after the end of the range
         partial = set()
         end_node = r.end_node()
diff --git a/quickly/transpose.py b/quickly/transpose.py
index ed5f2de..125dc74 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -148,6 +148,8 @@ class Transpose(edit.Edit):
         else:
             # determine this before the first change is made
             selected = set(id(n) for n in r.ancestor() // lily.Pitchable if n in r)
+            if r.start_trail is None and r.end_trail is None:
+                selected.add(id(r.ancestor()))
             writable = lambda n: id(n) in selected
 
         def notes(nodes, relative_mode=False):
-- 
2.43.0


From 08e4021cd796121407a5d0082fff6d365907461a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:36 +0000
Subject: [PATCH 64/80] fix: don't modify the cached value of a list context

A value like 1\cm got its Unit again every time the DOM was read.
---
 quickly/lang/lilypond.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index acdc998..29f5d4d 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -396,7 +396,9 @@ class LilyPondTransform(base.Transform):
             elif isinstance(i.obj, element.Element):
                 yield i.obj
             elif i.name == "list":
-                yield from i.obj
+                # copy, because the node itself can be changed (e.g. get a Unit)
+                for n in i.obj:
+                    yield n.copy_with_origin()
             elif i.name == "markup":
                 yield from self.create_markup(i.obj, items)
 
@@ -1214,7 +1216,8 @@ class MusicBuilder:
     @_context("list")
     def list(self, nodes):
         """Called for ``list`` context: a value, and maybe comments."""
-        yield from self.string_scheme(nodes[0])
+        # copy, because the node itself can be changed (e.g. get a Unit)
+        yield from self.string_scheme(nodes[0].copy_with_origin())
         for node in nodes[1:]:
             yield from self.comment(node)
 
-- 
2.43.0


From 1c99ce362741ffec43cf8e4c0e1e1f04f1e03049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:15 +0000
Subject: [PATCH 65/80] fix: escapes like \n in LilyPond strings keep their
 meaning

---
 quickly/dom/lily.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index bfaa34a..efebd7e 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -668,6 +668,15 @@ class Symbol(element.TextElement):
 class String(base.String):
     r"""A quoted string."""
 
+    # characters with a special meaning after a backslash
+    _escapes = {'"': '"', "'": "'", '\\': '\\', 'n': '\n', 't': '\t'}
+
+    @classmethod
+    def read_head(cls, origin):
+        """Reimplemented to read the escape sequences LilyPond supports."""
+        text = ''.join(t.text for t in origin[1:-1])
+        return re.sub(r'\\(.)', lambda m: cls._escapes.get(m[1], m[0]), text, flags=re.DOTALL)
+
 
 class Scheme(element.TextElement):
     """A Scheme expression in LilyPond.
-- 
2.43.0


From 4dd420a9d0e8b857270412ceaa7977181f21b398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:18 +0000
Subject: [PATCH 66/80] fix: a Scheme number that is NaN equals its copy

---
 quickly/dom/scm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quickly/dom/scm.py b/quickly/dom/scm.py
index 7ce0809..4ea27a7 100644
--- a/quickly/dom/scm.py
+++ b/quickly/dom/scm.py
@@ -162,6 +162,11 @@ class Number(element.TextElement):
         from parce.lang.scheme import scheme_number
         return scheme_number(origin)
 
+    def body_equals(self, other):
+        """Compares the head values, where NaN equals NaN."""
+        a, b = self.head, other.head
+        return a == b or (a != a and b != b)
+
     def write_head(self):
         v = self.head
         if v == math.inf:
-- 
2.43.0


From 744c0051610f6ab38ab9fdd1713b2e0a50fb6bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:21 +0000
Subject: [PATCH 67/80] fix: writing of complex and inexact Scheme numbers

---
 quickly/dom/scm.py | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/quickly/dom/scm.py b/quickly/dom/scm.py
index 4ea27a7..c11b850 100644
--- a/quickly/dom/scm.py
+++ b/quickly/dom/scm.py
@@ -167,27 +167,33 @@ class Number(element.TextElement):
         a, b = self.head, other.head
         return a == b or (a != a and b != b)
 
-    def write_head(self):
-        v = self.head
+    def _write_real(self, v):
+        """Write a real value, without the radix prefix."""
         if v == math.inf:
-            s = '+inf.0'
+            return '+inf.0'
         elif v == -math.inf:
-            s = '-inf.0'
-        elif v is math.nan:
-            s = '+nan.0'
-        elif isinstance(v, fractions.Fraction):
-            fmt = self._fmt[self.radix]
-            f = lambda n: format(n, fmt)
-            s = f(v.numerator)
-            if v.denominator != 1:
-                s = '{}/{}'.format(s, f(v.denominator))
-        elif isinstance(v, float) and self.radix == 10:
-            s = str(v)
-        elif isinstance(v, complex):
-            s = '{}{:+}i'.format(v.real, v.imag)
+            return '-inf.0'
+        elif v != v:
+            return '+nan.0'
+        elif isinstance(v, float):
+            if self.radix == 10:
+                return str(v)
+            v = fractions.Fraction(v)
+        fmt = self._fmt[self.radix]
+        if isinstance(v, fractions.Fraction) and v.denominator != 1:
+            return '{}/{}'.format(format(v.numerator, fmt), format(v.denominator, fmt))
+        return format(int(v), fmt)
+
+    def write_head(self):
+        v = self.head
+        if isinstance(v, complex):
+            imag = self._write_real(v.imag)
+            s = '{}{}{}i'.format(self._write_real(v.real), '' if imag[0] in '+-' else '+', imag)
         else:
-            s = format(int(v), self._fmt[self.radix])
-        return self._prefix[self.radix] + s
+            s = self._write_real(v)
+        # only decimal notation shows that a value is not exact
+        inexact = self.radix != 10 and isinstance(v, float) and not v.is_integer() and math.isfinite(v)
+        return ('#i' if inexact else '') + self._prefix[self.radix] + s
 
     def repr_head(self):
         """Dump Scheme numbers in Scheme syntax."""
-- 
2.43.0


From 110ded7af36366376fc559cbc328af51e2343a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:23 +0000
Subject: [PATCH 68/80] fix: Scheme symbols that look like a number, e.g. 1+,
 are not lost

---
 quickly/lang/scheme.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/lang/scheme.py b/quickly/lang/scheme.py
index fa17024..7864d20 100644
--- a/quickly/lang/scheme.py
+++ b/quickly/lang/scheme.py
@@ -99,7 +99,9 @@ class SchemeTransform(base.Transform):
         try:
             return self.factory(self._radix_mapping[radix], items)
         except (ValueError, ZeroDivisionError):
-            return self.factory(scm.NaN, items)
+            # a symbol can look like a number, e.g. ``1+``
+            cls = scm.NaN if items[0].text.startswith('#') else scm.Identifier
+            return self.factory(cls, items)
 
     def string(self, items):
         """Create a String node."""
-- 
2.43.0


From 3b6ec8bebaf2aa374fba27b639991023a7cd0db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:26 +0000
Subject: [PATCH 69/80] fix: don't repeat CDATA[ in the contents of a CDATA
 section

---
 quickly/dom/htm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/htm.py b/quickly/dom/htm.py
index ecbeb7e..cd702c6 100644
--- a/quickly/dom/htm.py
+++ b/quickly/dom/htm.py
@@ -236,7 +236,7 @@ class CData(element.TextElement):
     @classmethod
     def read_head(cls, origin):
         end = -1 if origin[-1] == "]]>" else None
-        return ''.join(t.text for t in origin[1:end])
+        return ''.join(t.text for t in origin[3:end])   # skip "<![", "CDATA" and "["
 
     def write_head(self):
         # handle the unlikely case literal ']]>' is in text
-- 
2.43.0


From a835db44802df5bae669294edc9f376523de38a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:28 +0000
Subject: [PATCH 70/80] fix: don't escape code in a processing instruction

---
 quickly/dom/htm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quickly/dom/htm.py b/quickly/dom/htm.py
index cd702c6..757fb1e 100644
--- a/quickly/dom/htm.py
+++ b/quickly/dom/htm.py
@@ -206,6 +206,8 @@ class Document(base.Document, Element):
 class Text(element.TextElement):
     """Html/Xml text contents (Text or Whitespace)."""
     def write_head(self):
+        if any(isinstance(n, ProcessingInstruction) for n in self.ancestors()):
+            return self.head    # can be any code, e.g. ``a < b``
         return html.escape(self.head)
 
 
-- 
2.43.0


From a42b122e80078c6563a8a2f5792a59494b66fa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:30 +0000
Subject: [PATCH 71/80] fix: don't lose the backslash in line-width=10\cm

---
 quickly/dom/htm.py   | 13 ++++++++++++-
 quickly/lang/html.py |  3 ++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/htm.py b/quickly/dom/htm.py
index 757fb1e..1eb0373 100644
--- a/quickly/dom/htm.py
+++ b/quickly/dom/htm.py
@@ -285,7 +285,18 @@ class Number(element.TextElement):
 
 
 class Unit(element.TextElement):
-    """A short unit string like ``"mm"``, used in lilypond book options."""
+    r"""A short unit string like ``"mm"``, used in lilypond book options.
+
+    The backslash (e.g. in ``line-width=10\cm``) is not in the head value, but
+    added on write.
+
+    """
+    @classmethod
+    def read_head(cls, origin):
+        return origin[0].text.lstrip('\\')
+
+    def write_head(self):
+        return '\\' + self.head
 
 
 class ProcessingInstruction(element.BlockElement):
diff --git a/quickly/lang/html.py b/quickly/lang/html.py
index a371cc0..a30be1b 100644
--- a/quickly/lang/html.py
+++ b/quickly/lang/html.py
@@ -27,7 +27,7 @@ import re
 import parce.action as a
 from parce import lexicon
 from parce.rule import (
-    ARG, MATCH, TEXT, bygroup, dselect, findmember, ifeq, pattern)
+    ARG, MATCH, TEXT, bygroup, dselect, findmember, ifeq, pattern, words)
 from parce.lang import html, lilypond_words
 from parce.util import Dispatcher
 from parce.transform import add_untransformed
@@ -67,6 +67,7 @@ class Html(base.XmlLike, html.Html):
         yield r'>', a.Delimiter, -1, ifeq(ARG, "lilypond", lilypond.LilyPond.html_lilypond_tag, cls.tag)
         yield pattern(ifeq(ARG, "lilypond", ":", None)), a.Delimiter, -1, lilypond.LilyPond.html_lilypond_tag("short form")
         yield r'\d+(?:\.\d+)?', a.Number
+        yield words(lilypond_words.lilypond_book_units, prefix=r'\\', suffix=r'\b'), a.Name.Builtin.Unit
         yield r'[^\W\d]\w*(?:-\w+)*', findmember(TEXT, (
             (lilypond_words.lilypond_book_options, a.Name.Attribute),
             (lilypond_words.lilypond_book_units, a.Name.Builtin.Unit)), a.Name)
-- 
2.43.0


From b3298e90fff0cfb908eddca9f9e92e3ee9189ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:33 +0000
Subject: [PATCH 72/80] fix: don't add newlines that create new paragraphs in
 LaTeX

---
 quickly/dom/tex.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/tex.py b/quickly/dom/tex.py
index dbf2719..7e03978 100644
--- a/quickly/dom/tex.py
+++ b/quickly/dom/tex.py
@@ -40,6 +40,10 @@ class Document(base.Document):
     """A full LaTeX source document."""
     space_between = ''
 
+    def concat_space(self, n, m):
+        """Reimplemented because a Comment takes care of its newline itself."""
+        return '\n' if isinstance(n, base.Newline) else self.space_between
+
 
 class Option(element.BlockElement):
     """An option block: ``[`` ... ``]``."""
@@ -94,7 +98,23 @@ class Text(element.TextElement):
     """Common text."""
 
 
-class Environment(element.Element):
+class _NewlineAfter(element.Element):
+    """Mixin class for elements that want a newline after them.
+
+    The newline is not added when the following Text already starts with one,
+    because that would create a new paragraph.
+
+    """
+    def points(self):
+        """Reimplemented to not add a second newline."""
+        points = list(super().points())
+        text = self.right_sibling()
+        if points and isinstance(text, Text) and text.head.lstrip(' \t').startswith('\n'):
+            points[-1] = points[-1]._replace(space_after='')
+        return iter(points)
+
+
+class Environment(_NewlineAfter):
     """A LaTeX environment.
 
     Starts with a :class:`Command` ``\\begin``, with zero or more
@@ -133,7 +153,7 @@ class EnvironmentName(element.TextElement):
         return '{' + self.head + '}'
 
 
-class Comment(base.SinglelineComment):
+class Comment(_NewlineAfter, base.SinglelineComment):
     r"""A singleline comment after ``%``."""
     space_after = '\n'
 
-- 
2.43.0


From 24250b6870862aba0980c553b2a2d92f2463ad87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:43 +0000
Subject: [PATCH 73/80] fix: find the other end of a spanner that has an id and
 a direction or tweak

---
 quickly/dom/lily.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index efebd7e..5de066a 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -759,11 +759,22 @@ class Spanner(element.MappingElement):
         cls, head = type(self), self.head
         parallel = lambda n: type(n) is cls and n.head != head
 
-        spanner_id = self.left_sibling() if isinstance(self.parent, SpannerId) else None
+        def get_spanner_id(node):
+            """Return the id node, which is the first argument of a SpannerId
+            the node is in (maybe in a Direction or Tweak)."""
+            for p in node.ancestors():
+                if isinstance(p, SpannerId):
+                    return next((n for n in p if not isinstance(n, base.Comment)), None)
+                elif not isinstance(p, (Direction, Tweak)):
+                    return
+
+        spanner_id = get_spanner_id(self)
         if spanner_id:
-            spanner_ok = lambda n: isinstance(n.parent, SpannerId) and spanner_id.equals(n.left_sibling())
+            def spanner_ok(node):
+                other = get_spanner_id(node)
+                return other is not None and spanner_id.equals(other)
         else:
-            spanner_ok = lambda n: not isinstance(n.parent, SpannerId)
+            spanner_ok = lambda n: get_spanner_id(n) is None
 
         for n in filter(lambda n: parallel(n) and spanner_ok(n), nodes):
             return n
-- 
2.43.0


From ce72156cc46f8256e312d6fa7a1d9a7b190cbdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:43 +0000
Subject: [PATCH 74/80] fix: write no comma after a node that is dumped alone
 in Python syntax

---
 quickly/dom/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index 4435716..41e9989 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -309,7 +309,7 @@ class Element(Node, metaclass=ElementType):
                         yield repr(node.head)
                         if len(node):
                             yield ','
-                    text = '),\n' if node.parent and not node.is_last() else ')'
+                    text = '),\n' if stack and not node.is_last() else ')'
                     if len(node):
                         yield '\n'
                         stack.append((gen, text))
-- 
2.43.0


From 9c65bf443c4398484b50ccfcbfbfd6c5e69f67ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:18 +0000
Subject: [PATCH 75/80] fix: find an assignment after a string or name that is
 not assigned to

---
 quickly/lang/lilypond.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 29f5d4d..7696960 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -431,6 +431,10 @@ class LilyPondTransform(base.Transform):
                             break
                         elif isinstance(n, lily.EqualSign):
                             equalsign = True
+                        elif isinstance(n, (lily.List, lily.Symbol, lily.String)):
+                            # not an assignment, but this one can start one
+                            yield from variable[:-1]
+                            variable = [n]
                         else:
                             yield from variable
                             break
-- 
2.43.0


From 5dfe865bc853e612dab2681b68a0282596e80ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:04 +0000
Subject: [PATCH 76/80] fix: resolve entities in nested HTML elements with the
 specified resolver

---
 quickly/dom/htm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/htm.py b/quickly/dom/htm.py
index 1eb0373..ce68bb3 100644
--- a/quickly/dom/htm.py
+++ b/quickly/dom/htm.py
@@ -183,7 +183,7 @@ class Element(element.Element):
 
         def to_text(obj):
             if isinstance(obj, Element):
-                return obj.to_plaintext()
+                return obj.to_plaintext(entity_resolver)
             elif isinstance(obj, Text):
                 return obj.head
             elif isinstance(obj, EntityRef):
-- 
2.43.0


From 6f6bb0617e9d98eee47aa132946d7b0438967006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:22 +0000
Subject: [PATCH 77/80] fix: keep the duration of a lyric item when a comment
 comes in between

A comment between a string, symbol, Scheme or markup expression in lyrics and
its duration made that the duration was read as a separate (empty) lyric item.
---
 quickly/lang/lilypond.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 7696960..42979ad 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -568,14 +568,22 @@ class LilyPondTransform(base.Transform):
 
         """
         p = None
+        comments = []   # comments after p
         for n in nodes:
             if isinstance(n, lily.Unpitched):
                 p = p or lily.LyricItem()
+                p.extend(comments)
+                comments.clear()
                 p.extend(n)
                 yield p
+            elif p and isinstance(n, base.Comment):
+                comments.append(n)
+                continue
             else:
                 if p:
                     yield p
+                    yield from comments
+                    comments.clear()
                 if isinstance(n, (lily.String, lily.Symbol, lily.Scheme, lily.Markup)):
                     p = lily.LyricItem(n)
                     continue
@@ -583,6 +591,7 @@ class LilyPondTransform(base.Transform):
             p = None
         if p:
             yield p
+            yield from comments
 
     # dispatchers for common types
     _pitch = Dispatcher()
-- 
2.43.0


From 07d248563d62f44f9a0620fc459124d3d8026781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:16 +0000
Subject: [PATCH 78/80] fix: follow language changes inside the music that is
 made relative

Converting absolute music to relative used the wrong pitch names (or raised a
KeyError) after music that contained a \language command.
---
 quickly/relative.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 97154b5..ef65277 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -235,8 +235,13 @@ class Abs2rel(edit.Edit):
             return isinstance(node, (lily.Language, lily.Include, lily.Relative, lily.ChordMode))
 
         # Do it!
-        nodes = [(n, processor.language) for n in processor.follow_language(r.filter(predicate))
-                    if isinstance(n, (lily.MusicList, lily.ChordMode)) and n in r]
+        nodes = []
+        for n in processor.follow_language(r.filter(predicate)):
+            if isinstance(n, (lily.MusicList, lily.ChordMode)) and n in r:
+                nodes.append((n, processor.language))
+            # don't look into the node, but follow the language
+            for m in processor.follow_language(n // (lily.Language, lily.Include)):
+                pass
         for n, language in nodes:
             processor.language = language
             parent = n.parent
-- 
2.43.0


From 20052bb489e7e61ae15bc0ea8616c3ca65b558b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:28 +0000
Subject: [PATCH 79/80] fix: don't change the octave when converting music
 inside \fixed

LilyPond does not change the octave of \relative and \absolute music inside
\fixed. So music inside \fixed can't just get a \relative command, and
\relative music inside \fixed becomes \absolute music.
---
 quickly/relative.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index ef65277..377c1dc 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -43,6 +43,17 @@ def _in_relative(node):
     return False
 
 
+def _in_fixed(node):
+    r"""True if the music in ``node`` would be affected by a ``\fixed`` command,
+    if it were not in ``\relative``."""
+    for n in node.ancestors():
+        if isinstance(n, lily.Fixed):
+            return True
+        elif isinstance(n, (lily.Absolute, lily.Markup)):
+            return False
+    return False
+
+
 def _find_language(processor, r):
     """Set the language of the ``processor`` to the one at the start of the Range ``r``."""
     node = r.start_node() or r.ancestor()
@@ -126,7 +137,8 @@ class Rel2abs(edit.Edit):
             else:
                 last_pitch = Pitch(0, 0, 0)
 
-            parent[index:index+1] = nodes   # remove \relative node but keep its child(ren)
+            # remove \relative node but keep its child(ren)
+            parent[index:index+1] = [lily.Absolute(*nodes)] if _in_fixed(node) else nodes
 
             for n in notes(nodes):
                 if isinstance(n, lily.Pitchable):
@@ -217,8 +229,8 @@ class Abs2rel(edit.Edit):
         """Do the pitch conversion."""
         if _in_relative(r.ancestor()):
             return  # this music is already relative
-        elif any(isinstance(n, lily.ChordMode) for n in (r.ancestor(), *r.ancestor().ancestors())):
-            return  # only a ChordMode node as a whole is converted
+        elif any(isinstance(n, (lily.ChordMode, lily.Fixed)) for n in (r.ancestor(), *r.ancestor().ancestors())):
+            return  # only a ChordMode node as a whole is converted; \fixed doesn't affect \relative
 
         processor, first_pitch_absolute = self._get_settings(r.ancestor())
         _find_language(processor, r)
@@ -232,7 +244,7 @@ class Abs2rel(edit.Edit):
             """Find MusicList nodes that contain notes, and nodes not to look into."""
             if isinstance(node, lily.MusicList):
                 return has_notes(node) and node in r
-            return isinstance(node, (lily.Language, lily.Include, lily.Relative, lily.ChordMode))
+            return isinstance(node, (lily.Language, lily.Include, lily.Relative, lily.Fixed, lily.ChordMode))
 
         # Do it!
         nodes = []
-- 
2.43.0


From 118cb8f1334b29e4dac9a63ffc7e92b30688d69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:30 +0000
Subject: [PATCH 80/80] fix: follow language changes inside the music that is
 made absolute

Converting relative music to absolute used the wrong pitch names (or raised a
KeyError) after \relative music that contained a \language command.
---
 quickly/relative.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 377c1dc..820589e 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -165,8 +165,13 @@ class Rel2abs(edit.Edit):
                     n.parent.remove(n)
         # Do it!
         nodes = r.instances_of((lily.Language, lily.Include, lily.Relative))
-        relatives = [(n, processor.language) for n in processor.follow_language(nodes)
-                            if isinstance(n, lily.Relative) and r.in_range()]
+        relatives = []
+        for n in processor.follow_language(nodes):
+            if isinstance(n, lily.Relative) and r.in_range():
+                relatives.append((n, processor.language))
+            # don't look into the node, but follow the language
+            for m in processor.follow_language(n // (lily.Language, lily.Include)):
+                pass
         for n, language in relatives:
             processor.language = language
             make_absolute(n)
-- 
2.43.0

