From d18ae2c205420b0f8f9b37de5e987bdce2e84086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:43 +0000
Subject: [PATCH 01/19] fix: convert HSL hues in the 240-300 sector and outside
 0-360 correctly

---
 src/colosseum/colors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/colosseum/colors.py b/src/colosseum/colors.py
index 37a1ec8..723cf33 100644
--- a/src/colosseum/colors.py
+++ b/src/colosseum/colors.py
@@ -34,7 +34,7 @@ class hsl(Color):
     @property
     def rgb(self):
         c = (1.0 - abs(2.0 * self.l - 1.0)) * self.s
-        h = self.h / 60.0
+        h = (self.h % 360) / 60.0
         x = c * (1.0 - abs(h % 2 - 1.0))
         m = self.l - 0.5 * c
 
@@ -47,7 +47,7 @@ class hsl(Color):
         elif h < 4.0:
             r, g, b = m, x + m, c + m
         elif h < 5.0:
-            r, g, b = m, x + m, c + m
+            r, g, b = x + m, m, c + m
         else:
             r, g, b = c + m, m, x + m
 
-- 
2.43.0


From 4a77be38c9406274579f0123bfc2399a3484b18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:59 +0000
Subject: [PATCH 02/19] fix: copy() must not drop or reject stored values that
 were converted to wrapper types

---
 src/colosseum/declaration.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/declaration.py b/src/colosseum/declaration.py
index 3c3e13e..e22da65 100644
--- a/src/colosseum/declaration.py
+++ b/src/colosseum/declaration.py
@@ -703,7 +703,10 @@ class CSS:
         dup._node = node
         for style in _CSS_PROPERTIES:
             try:
-                setattr(dup, style, getattr(self, f"_{style}"))
+                # The stored value has already been validated (and possibly
+                # converted to a wrapper type), so copy it verbatim.
+                setattr(dup, f"_{style}", getattr(self, f"_{style}"))
+                dup.dirty = True
             except AttributeError:
                 pass
         return dup
-- 
2.43.0


From f43ec6d149f7e0087f2132b5e123b363ab7795b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:59 +0000
Subject: [PATCH 03/19] fix: changing the style or intrinsic size of a node
 with no layout box must not raise

---
 src/colosseum/declaration.py | 5 +++--
 src/colosseum/dimensions.py  | 7 +++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/declaration.py b/src/colosseum/declaration.py
index e22da65..3dfaf29 100644
--- a/src/colosseum/declaration.py
+++ b/src/colosseum/declaration.py
@@ -668,12 +668,13 @@ class CSS:
     ######################################################################
     @property
     def dirty(self):
-        if self._node:
+        if self._node and self._node.layout:
             return self._node.layout.dirty
 
     @dirty.setter
     def dirty(self, value):
-        if self._node:
+        # A node that isn't displayed has no layout to invalidate.
+        if self._node and self._node.layout:
             self._node.layout.dirty = value
 
     ######################################################################
diff --git a/src/colosseum/dimensions.py b/src/colosseum/dimensions.py
index 2a083d3..e370851 100644
--- a/src/colosseum/dimensions.py
+++ b/src/colosseum/dimensions.py
@@ -25,11 +25,14 @@ class Size:
 
     @property
     def dirty(self):
-        return self._node.layout.dirty
+        if self._node.layout:
+            return self._node.layout.dirty
 
     @dirty.setter
     def dirty(self, value):
-        self._node.layout.dirty = value
+        # A node that isn't displayed has no layout to invalidate.
+        if self._node.layout:
+            self._node.layout.dirty = value
 
     @property
     def width(self):
-- 
2.43.0


From 076049fc29d8cdc3a832f4492376216353e82396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:48 +0000
Subject: [PATCH 04/19] fix: treat auto vertical margins on inline non-replaced
 elements as 0 (S10.6.1)

---
 src/colosseum/engine.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index e62cfb7..2ca29a7 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -624,6 +624,12 @@ def calculate_height_and_margins(node, context):
 
 def calculate_inline_non_replaced_height(node, context):
     "Implements S10.6.1"
+    if node.layout.margin_top is AUTO:
+        node.layout.margin_top = 0
+
+    if node.layout.margin_bottom is AUTO:
+        node.layout.margin_bottom = 0
+
     node.layout.content_height = node.intrinsic.height
     node.layout.content_top += (
         node.layout.margin_top + node.layout.border_top_width + node.layout.padding_top
-- 
2.43.0


From 8a87e54f68652dbb875a26ee8638b932d1f689a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:21 +0000
Subject: [PATCH 05/19] fix: resolve percentage margins and paddings against
 the containing block's width (S8.3, S8.4)

---
 src/colosseum/engine.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 2ca29a7..eb2ff24 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -184,28 +184,28 @@ def layout_box(display, node, containing_block, viewport, font):
         "font": font,
         "size": containing_block.layout.content_height,
     }
-    node.layout.margin_top = calculate_size(node.style.margin_top, vertical)
+    node.layout.margin_top = calculate_size(node.style.margin_top, horizontal)
     node.layout.margin_right = calculate_size(node.style.margin_right, horizontal)
-    node.layout.margin_bottom = calculate_size(node.style.margin_bottom, vertical)
+    node.layout.margin_bottom = calculate_size(node.style.margin_bottom, horizontal)
     node.layout.margin_left = calculate_size(node.style.margin_left, horizontal)
 
     node.layout.border_top_width = calculate_size(
         node.style.border_top_width, horizontal
     )
     node.layout.border_right_width = calculate_size(
-        node.style.border_right_width, vertical
+        node.style.border_right_width, horizontal
     )
     node.layout.border_bottom_width = calculate_size(
         node.style.border_bottom_width, horizontal
     )
     node.layout.border_left_width = calculate_size(
-        node.style.border_left_width, vertical
+        node.style.border_left_width, horizontal
     )
 
     node.layout.padding_top = calculate_size(node.style.padding_top, horizontal)
-    node.layout.padding_right = calculate_size(node.style.padding_right, vertical)
+    node.layout.padding_right = calculate_size(node.style.padding_right, horizontal)
     node.layout.padding_bottom = calculate_size(node.style.padding_bottom, horizontal)
-    node.layout.padding_left = calculate_size(node.style.padding_left, vertical)
+    node.layout.padding_left = calculate_size(node.style.padding_left, horizontal)
 
     # print("NODE", node)
 
-- 
2.43.0


From 90442338f034acc4b5ba694d05d7fbee26cb205d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:10 +0000
Subject: [PATCH 06/19] fix: children that are not displayed must not crash the
 layout of their parent

---
 src/colosseum/engine.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index eb2ff24..872ef12 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -149,7 +149,10 @@ def anonymize(nodes):
     anon_block = None
     containers = []
     for node in nodes:
-        if is_block_level_element(node):
+        if node.style.display is None:
+            # The node doesn't generate a box, so it can't break an anonymous block.
+            containers.append(node)
+        elif is_block_level_element(node):
             if anon_block:
                 containers.append(anon_block)
                 anon_block = None
@@ -238,6 +241,10 @@ def layout_box(display, node, containing_block, viewport, font):
 
             for child in children:
                 layout_box(display, child, node, viewport, font)
+                if child.layout is None:
+                    # The child isn't displayed, so it doesn't take up any space.
+                    continue
+
                 # If this is the first child, check if the first child's margin box
                 # extends higher than the node's margin box. If it does, the starting
                 # position for calculations of the parent node's box must be adjusted
@@ -677,8 +684,9 @@ def calculate_block_non_replaced_normal_flow_height(node, context):
         # if node.children and node.has_inline_formatting_content: # P4.1
         #     content_height = bottom edge of last line box
         # elif node.children and node.children[-1] non collapsing with bottom margin:
-        if node.children and node.children[-1]:
-            last_child = node.children[-1]
+        displayed_children = [child for child in node.children if child.layout]
+        if displayed_children:
+            last_child = displayed_children[-1]
             content_height = last_child.layout.border_box_bottom
 
             # Merge the margin of the last child with
-- 
2.43.0


From 5dc9f3cefe6002406089bb09a944bd4748dc7429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:47 +0000
Subject: [PATCH 07/19] fix: a layout box re-created during layout must start
 from a clean subtree at its container's position

---
 src/colosseum/engine.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 872ef12..d5d1a94 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -174,6 +174,12 @@ def layout_box(display, node, containing_block, viewport, font):
         # Make sure the node *has* a display box.
         if node.layout is None:
             node.layout = Box(node)
+            # The descendants of a node without a layout box weren't reset at the
+            # start of layout, and the new box doesn't know where its container is.
+            node.layout.reset()
+            if containing_block is not viewport:
+                node.layout._origin_top = containing_block.layout.absolute_content_top
+                node.layout._origin_left = containing_block.layout.absolute_content_left
 
     # Copy margin, border and padding attributes to the layout
     horizontal = {
-- 
2.43.0


From c65973db32bab12cf7afe71af552fd47696e4a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:19 +0000
Subject: [PATCH 08/19] fix: laying out a root node that is not displayed must
 not raise

---
 src/colosseum/engine.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index d5d1a94..6b5c2aa 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -108,11 +108,16 @@ def layout(display, node, standard=HTML5):
     containing_block = Viewport(display, node)
     font = DummyFont(-1)  # FIXME: default font
 
-    node.layout.reset()
+    if node.layout:
+        node.layout.reset()
 
     # 10.1 1
     layout_box(display, node, containing_block, containing_block, font)
 
+    # If the root isn't displayed, there's nothing to lay out.
+    if node.layout is None:
+        return
+
     # The full collapsed extent of the top margin on the root element
     # must be displayed, so move the default content position so that it is.
     node.layout.content_top += node.layout.collapse_top
-- 
2.43.0


From ea65c08b0519823a2eefbae4549ded28c201b657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:39 +0000
Subject: [PATCH 09/19] fix: fractional margins must take part in margin
 collapsing

---
 src/colosseum/dimensions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/dimensions.py b/src/colosseum/dimensions.py
index e370851..302c6e7 100644
--- a/src/colosseum/dimensions.py
+++ b/src/colosseum/dimensions.py
@@ -339,7 +339,7 @@ class Box:
 
     @collapse_top.setter
     def collapse_top(self, value):
-        if isinstance(value, int) and value > self._collapse_top:
+        if isinstance(value, (int, float)) and value > self._collapse_top:
             self._collapse_top = value
 
     @property
@@ -348,7 +348,7 @@ class Box:
 
     @collapse_right.setter
     def collapse_right(self, value):
-        if isinstance(value, int) and value > self._collapse_right:
+        if isinstance(value, (int, float)) and value > self._collapse_right:
             self._collapse_right = value
 
     @property
@@ -357,7 +357,7 @@ class Box:
 
     @collapse_bottom.setter
     def collapse_bottom(self, value):
-        if isinstance(value, int) and value > self._collapse_bottom:
+        if isinstance(value, (int, float)) and value > self._collapse_bottom:
             self._collapse_bottom = value
 
     @property
@@ -366,7 +366,7 @@ class Box:
 
     @collapse_left.setter
     def collapse_left(self, value):
-        if isinstance(value, int) and value > self._collapse_left:
+        if isinstance(value, (int, float)) and value > self._collapse_left:
             self._collapse_left = value
 
     ######################################################################
-- 
2.43.0


From 055c5920e4dce9dcb81cd359738d9a85cd513e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:20 +0000
Subject: [PATCH 10/19] fix: collapse margins of adjoining boxes only, and all
 of the margins that adjoin (S8.3.1)

---
 src/colosseum/engine.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 6b5c2aa..d1a1ad3 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -263,9 +263,14 @@ def layout_box(display, node, containing_block, viewport, font):
                 # Otherwise, collapse the bottom margin of the previous element
                 # with the top margin of this element, and offset by the result.
                 if bottom_margin is None:
-                    node.layout.collapse_top = child.layout.collapse_top
+                    # The two margins are only adjoining if the node has no top border
+                    # or padding (8.3.1).
+                    if node.layout.border_top_width == 0 and node.layout.padding_top == 0:
+                        node.layout.collapse_top = child.layout.collapse_top
+                    else:
+                        offset_top += child.layout.collapse_top
                 else:
-                    offset_top += max(bottom_margin, child.layout.margin_top)
+                    offset_top += max(bottom_margin, child.layout.collapse_top)
 
                 # Offset the top of the child, relative to the parent.
                 child.layout.content_top += offset_top
@@ -700,9 +705,12 @@ def calculate_block_non_replaced_normal_flow_height(node, context):
             last_child = displayed_children[-1]
             content_height = last_child.layout.border_box_bottom
 
-            # Merge the margin of the last child with
-            # the margin of the last child.
-            node.layout.collapse_bottom = last_child.layout.collapse_bottom
+            # Merge the margin of the last child with the margin of the node,
+            # unless the node's border or padding separates them (8.3.1).
+            if node.layout.border_bottom_width == 0 and node.layout.padding_bottom == 0:
+                node.layout.collapse_bottom = last_child.layout.collapse_bottom
+            else:
+                content_height += last_child.layout.collapse_bottom
 
         # elif node.children and node.children[-1] top margin non collapsing with bottom margin:
         #     content_height = bottom border edge of bottom margin
-- 
2.43.0


From 28de72d588954ff767e4baa2a45d1eb25f1ba015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:20 +0000
Subject: [PATCH 11/19] fix: immutable lists must reject every mutating list
 operation

---
 src/colosseum/wrappers.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/colosseum/wrappers.py b/src/colosseum/wrappers.py
index ee82a21..3b3fcb7 100644
--- a/src/colosseum/wrappers.py
+++ b/src/colosseum/wrappers.py
@@ -194,6 +194,15 @@ class ImmutableList(list):
     def __setitem__(self, index, value):
         raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
 
+    def __delitem__(self, index):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
+    def __iadd__(self, value):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
+    def __imul__(self, value):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
     def __hash__(self):
         return hash((self.__class__.__name__, tuple(self)))
 
@@ -216,6 +225,9 @@ class ImmutableList(list):
     def append(self, object):
         raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
 
+    def clear(self):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
     def extend(self, iterable):
         raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
 
-- 
2.43.0


From 461fb8e5a31de88bfb7f828825207c840d26ba5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:54 +0000
Subject: [PATCH 12/19] fix: scaling a unit must not register a new unit
 definition

---
 src/colosseum/units.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/units.py b/src/colosseum/units.py
index 6c392a5..d88268f 100644
--- a/src/colosseum/units.py
+++ b/src/colosseum/units.py
@@ -28,7 +28,10 @@ class BaseUnit:
     UNITS = []
 
     def __init__(self, suffix, val=None):
-        BaseUnit.UNITS.append((suffix, self))
+        # Only the definition of a unit is registered for parsing; the values that
+        # are created from it (which have an explicit val) aren't.
+        if val is None:
+            BaseUnit.UNITS.append((suffix, self))
         self.suffix = suffix
         self.val = val if val is not None else 1
 
-- 
2.43.0


From 2b68208508bb2d47802df5de5817b0d0f5fab8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:28 +0000
Subject: [PATCH 13/19] fix: an angle is not a length

---
 src/colosseum/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 574b6ae..5f7d4ec 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -24,7 +24,8 @@ def units(value):
         return value * px
     elif isinstance(value, str):
         for suffix, unit in Unit.UNITS:
-            if value.endswith(suffix):
+            # Angles are registered as units, but they aren't lengths.
+            if isinstance(unit, Unit) and value.endswith(suffix):
                 try:
                     return float(value[: -len(suffix)]) * unit
                 except ValueError:
-- 
2.43.0


From dd40339e11360198cb2862d875c2f1420682da1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:10 +0000
Subject: [PATCH 14/19] fix: invalid property values must be rejected with
 ValueError, whatever their type

---
 src/colosseum/parser.py     | 27 +++++++++++++++++++--------
 src/colosseum/validators.py |  2 +-
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 5f7d4ec..8d4d49a 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -60,7 +60,7 @@ def color(value):
         return value
 
     elif isinstance(value, str):
-        if value[0] == "#":
+        if value.startswith("#"):
             return pound_sign_color(value)
         elif value.startswith("rgba"):
             try:
@@ -166,8 +166,10 @@ def border_spacing(value):
         values = value
     elif isinstance(value, (int, float)):
         values = (value,)
-    else:
+    elif isinstance(value, str):
         values = [x.strip() for x in value.split()]
+    else:
+        raise ValueError(f"Unknown border spacing {value}")
 
     if len(values) == 1:
         horizontal = units(values[0])
@@ -182,6 +184,9 @@ def border_spacing(value):
 
 def rect(value):
     """Parse a given rect shape."""
+    if not isinstance(value, str):
+        raise ValueError(f"Unknown shape {value}")
+
     value = " ".join(val.strip() for val in value.split())
     if (
         value.startswith("rect(")
@@ -217,7 +222,10 @@ def quotes(value):
         values = [val.strip() for val in value.split()]
     elif isinstance(value, Sequence):
         # Flatten list of tuples
-        values = [repr(item) for sublist in value for item in sublist]
+        try:
+            values = [repr(item) for sublist in value for item in sublist]
+        except TypeError:
+            raise ValueError(f"Unknown quote {value}")
     else:
         raise ValueError(f"Unknown quote {value}")
 
@@ -232,14 +240,15 @@ def quotes(value):
             try:
                 opening = literal_eval(opening)
                 closing = literal_eval(closing)
-                parsed_values.append((opening, closing))
-
-                if len(opening) == 0 or len(closing) == 0:
-                    raise ValueError(f"Invalid quotes {value}")
-
             except SyntaxError:
                 raise ValueError(f"Invalid quotes {value}")
 
+            # Each quote must be a non-empty string
+            if not all(isinstance(val, str) and val for val in (opening, closing)):
+                raise ValueError(f"Invalid quotes {value}")
+
+            parsed_values.append((opening, closing))
+
         return Quotes(parsed_values)
 
     raise ValueError("Length of quote items must be a multiple of 2!")
@@ -447,6 +456,8 @@ def cursor(values):
 
     if isinstance(values, str):
         values = [val.strip() for val in values.split(",")]
+    elif not isinstance(values, Sequence):
+        raise ValueError(f"Unknown cursor {values}")
 
     validated_values = []
     has_cursor_option = False
diff --git a/src/colosseum/validators.py b/src/colosseum/validators.py
index 8b49a98..a1bd4bb 100644
--- a/src/colosseum/validators.py
+++ b/src/colosseum/validators.py
@@ -11,7 +11,7 @@ from .exceptions import ValidationError
 def _numeric_validator(num_value, numeric_type, min_value, max_value):
     try:
         num_value = numeric_type(num_value)
-    except (ValueError, TypeError):
+    except (ValueError, TypeError, OverflowError):
         error_msg = f"Cannot coerce {num_value} to {numeric_type.__name__}"
         raise ValidationError(error_msg)
 
-- 
2.43.0


From e3c4942f4cc2122e4653885e3480b049ef27e05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:19 +0000
Subject: [PATCH 15/19] fix: lengths must be finite numbers

---
 src/colosseum/parser.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 8d4d49a..f5f6b29 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -1,3 +1,4 @@
+import math
 from ast import literal_eval
 from collections.abc import Sequence
 
@@ -8,6 +9,13 @@ from .units import Unit, px
 from .wrappers import BorderSpacing, Cursor, Quotes, Uri
 
 
+def _finite(value):
+    """Ensure that a number is finite; "nan" and "inf" are numbers, but not lengths."""
+    if isinstance(value, int) or math.isfinite(value):
+        return value
+    raise ValueError(f"Unknown size {value}")
+
+
 def units(value):
     """Parse a unit value
 
@@ -21,18 +29,18 @@ def units(value):
     if isinstance(value, Unit):
         return value
     elif isinstance(value, (int, float)):
-        return value * px
+        return _finite(value) * px
     elif isinstance(value, str):
         for suffix, unit in Unit.UNITS:
             # Angles are registered as units, but they aren't lengths.
             if isinstance(unit, Unit) and value.endswith(suffix):
                 try:
-                    return float(value[: -len(suffix)]) * unit
+                    return _finite(float(value[: -len(suffix)])) * unit
                 except ValueError:
                     pass
 
         try:
-            return float(value) * px
+            return _finite(float(value)) * px
         except ValueError:
             pass
 
-- 
2.43.0


From 1ec27ef88d0ab2004f2e93c366d2a375cdf6716e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:10 +0000
Subject: [PATCH 16/19] fix: keep multi-character quotes of a sequence whole

---
 src/colosseum/parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index f5f6b29..61ad4a2 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -229,9 +229,13 @@ def quotes(value):
     if isinstance(value, str):
         values = [val.strip() for val in value.split()]
     elif isinstance(value, Sequence):
-        # Flatten list of tuples
+        # Flatten list of tuples; a string is a quote, not a sequence of quotes
         try:
-            values = [repr(item) for sublist in value for item in sublist]
+            values = [
+                repr(item)
+                for sublist in value
+                for item in ([sublist] if isinstance(sublist, str) else sublist)
+            ]
         except TypeError:
             raise ValueError(f"Unknown quote {value}")
     else:
-- 
2.43.0


From 9bca5d9b8b3a1a959ce76d49c0afdca13a29929c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:11 +0000
Subject: [PATCH 17/19] fix: refuse quotes that are unhashable literals with
 ValueError

---
 src/colosseum/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 61ad4a2..fe4e3b2 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -252,7 +252,7 @@ def quotes(value):
             try:
                 opening = literal_eval(opening)
                 closing = literal_eval(closing)
-            except SyntaxError:
+            except (SyntaxError, TypeError):
                 raise ValueError(f"Invalid quotes {value}")
 
             # Each quote must be a non-empty string
-- 
2.43.0


From 8fe545f3e7290ab28c72e980ba6d25fe1179e92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:32 +0000
Subject: [PATCH 18/19] fix: functional colors need their brackets

'rgb 1,2,3.' and 'rgbx1,2,3y' were read as rgb(1, 2, 3): the characters in
place of the brackets were cut off without looking at them.
---
 src/colosseum/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index fe4e3b2..936daca 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -70,7 +70,7 @@ def color(value):
     elif isinstance(value, str):
         if value.startswith("#"):
             return pound_sign_color(value)
-        elif value.startswith("rgba"):
+        elif value.startswith("rgba(") and value.endswith(")"):
             try:
                 values = value[5:-1].split(",")
                 if len(values) == 4:
@@ -79,7 +79,7 @@ def color(value):
                     )
             except ValueError:
                 pass
-        elif value.startswith("rgb"):
+        elif value.startswith("rgb(") and value.endswith(")"):
             try:
                 values = value[4:-1].split(",")
                 if len(values) == 3:
@@ -87,7 +87,7 @@ def color(value):
             except ValueError:
                 pass
 
-        elif value.startswith("hsla"):
+        elif value.startswith("hsla(") and value.endswith(")"):
             try:
                 values = value[5:-1].split(",")
                 if len(values) == 4:
@@ -100,7 +100,7 @@ def color(value):
             except ValueError:
                 pass
 
-        elif value.startswith("hsl"):
+        elif value.startswith("hsl(") and value.endswith(")"):
             try:
                 values = value[4:-1].split(",")
                 if len(values) == 3:
-- 
2.43.0


From 0b2018ae77dfa9c31d6a30ec99597eac74bb1763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:32 +0000
Subject: [PATCH 19/19] fix: a color after a pound sign is made of hexadecimal
 digits only

'#+1+2+3', '# 1 2 3' and '#1_0' were read as colors, because int() accepts
signs, spaces and underscores.
---
 src/colosseum/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 936daca..f143b5e 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -1,6 +1,7 @@
 import math
 from ast import literal_eval
 from collections.abc import Sequence
+from string import hexdigits
 
 from .colors import NAMED_COLOR, hsl, rgb
 from .exceptions import ValidationError
@@ -129,6 +130,9 @@ def pound_sign_color(value):
     * '#RRGGBB'
     * '#RRGGBBAA'
     """
+    # int() accepts more than hexadecimal digits: signs, spaces, underscores
+    if any(digit not in hexdigits for digit in value[1:]):
+        raise ValueError(f"Unknown color {value}")
 
     if len(value) == 4:
         return rgb(
-- 
2.43.0

