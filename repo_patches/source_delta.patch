From cff9173c99ed976200da7ed55b2725f3965ece13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:51 +0000
Subject: [PATCH 01/30] fix: track the cursor across writes, and use it when
 none is given

---
 slate/screen.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/slate/screen.py b/slate/screen.py
index 5e39f90..b54fa37 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -153,6 +153,9 @@ class Screen:
             The number of cells that have been updated as a result of the write.
         """
 
+        if cursor is None:
+            cursor = self.cursor
+
         return self.write_bulk([(cursor, spans)], force_overwrite=force_overwrite, terminal_background=terminal_background)
 
     def write_bulk(
@@ -243,6 +246,11 @@ class Screen:
 
                     x, y = next_x, next_y
 
+                # Go back to the coordinates used by the caller
+                y += self._scrollback_offset
+
+            self.cursor = (x, y)
+
         changes = 0
 
         for y, line in enumerate(write_matrix):
-- 
2.43.0


From 5bbe3d691b92b2329c4239f17f414039192fc011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:53 +0000
Subject: [PATCH 02/30] fix: register every written cell as a change when
 force_overwrite is set

---
 slate/screen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/screen.py b/slate/screen.py
index b54fa37..067f893 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -292,7 +292,7 @@ class Screen:
 
                 new = (char, fg, bg)
 
-                if new != self._cells[y][x]:
+                if force_overwrite or new != self._cells[y][x]:
                     self._cells[y][x] = new
 
                     colors = []
-- 
2.43.0


From 226eea442445ba6b19c3f317960da5ed482eb990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:54 +0000
Subject: [PATCH 03/30] fix: keep cell colors in a full redraw

---
 slate/screen.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/slate/screen.py b/slate/screen.py
index 067f893..d676b75 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -33,6 +33,14 @@ def _get_blended(
     return base.blend(other, min(other.alpha+alpha_addition, 1.0), is_background=is_background)  # type: ignore
 
 
+def _get_cell_ansi(char: str, fg: Color | None, bg: Color | None) -> str:
+    """Returns the string that displays the given cell."""
+
+    color = ";".join(item.ansi for item in (fg, bg) if item is not None)
+
+    return f"\x1b[{color}m{char}\x1b[0m" if color else char
+
+
 class ChangeBuffer:
     """A simple class that keeps track of x, y positions of changed characters."""
 
@@ -325,7 +333,9 @@ class Screen:
             buffer = ""
 
             for row in self._cells:
-                buffer += f"\x1b[{y};{x}H" + "".join(str(item) for item, *_ in row)
+                buffer += f"\x1b[{y};{x}H" + "".join(
+                    _get_cell_ansi(*cell) for cell in row
+                )
                 y += 1
 
             self._change_buffer.clear()
-- 
2.43.0


From cb2a05a79abd99529d6bb01d9f982e900205a652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:55 +0000
Subject: [PATCH 04/30] fix: draw the kept content after a resize, and drop
 changes outside of the screen

---
 slate/screen.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slate/screen.py b/slate/screen.py
index d676b75..5154dd9 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -106,6 +106,9 @@ class Screen:
         cells_append = cells.append
         change_buffer = self._change_buffer.__setitem__
 
+        # Positions that no longer exist must not be drawn
+        self._change_buffer.clear()
+
         for y in range(height):
             row: list[tuple[str, Color | None, Color | None]] = []
 
@@ -125,6 +128,7 @@ class Screen:
                         break
 
                     cells[y][x] = char, fore, back
+                    change_buffer((x, y), _get_cell_ansi(char, fore, back))
 
         self.width = width
         self.height = height
-- 
2.43.0


From 47bdbeb387c2fd87d44a2f2980027b018614b28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:20 +0000
Subject: [PATCH 05/30] fix: blend semi-transparent text into its background
 instead of hiding it

---
 slate/screen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/slate/screen.py b/slate/screen.py
index 5154dd9..d37afda 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -149,7 +149,7 @@ class Screen:
         self,
         spans: Iterable[Span],
         cursor: tuple[int, int] | None = None,
-        terminal_background: Color = Color.black(),
+        terminal_background: Color = Color.black(is_background=True),
         force_overwrite: bool = False,
     ) -> int:
         """Writes data to the screen at the given cursor position.
@@ -173,7 +173,7 @@ class Screen:
     def write_bulk(
         self,
         data: list[tuple[tuple[int, int], Iterable[Span]]],
-        terminal_background: Color = Color.black(),
+        terminal_background: Color = Color.black(is_background=True),
         force_overwrite: bool = False,
     ) -> int:
         """Writes bulked data to the screen. This function culls any later-overwritten
@@ -297,7 +297,7 @@ class Screen:
                 bg = blent
 
                 if fg is not None and fg.alpha != 1.0:
-                    fg = _get_blended(fg, bg)
+                    fg = _get_blended(bg or terminal_background, fg, is_background=False)
 
                 has_newline = char.endswith("\n")
                 char = char.rstrip("\n")
-- 
2.43.0


From 4cc77d47d1dd1a4b309c17a39181ebcaa3a6b61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:21 +0000
Subject: [PATCH 06/30] fix: stop transparent layers from tinting opaque text
 written over them

---
 slate/screen.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slate/screen.py b/slate/screen.py
index d37afda..48fbbbb 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -254,6 +254,10 @@ class Screen:
                         final_bg = write_matrix[y][x][2]
                         final_char = char if not empty else write_matrix[y][x][0]
 
+                    else:
+                        # Nothing below an opaque write is visible
+                        alpha_matrix[y][x].clear()
+
                     write_matrix[y][x] = (final_char, final_fg, final_bg, last, char != final_char)
 
                     x, y = next_x, next_y
-- 
2.43.0


From cf681a4160a540fd1cfe9a6da616b2d2f68a1594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:22 +0000
Subject: [PATCH 07/30] fix: handle newlines within styled spans

---
 slate/screen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/screen.py b/slate/screen.py
index 48fbbbb..f8bf5f2 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -230,7 +230,7 @@ class Screen:
                     if self.width <= x or x < 0 or self.height <= y or y < 0:
                         break
 
-                    if char == "\n":
+                    if RE_ANSI.sub("", char) == "\n":
                         y += 1
                         continue
 
-- 
2.43.0


From 2d97c7e25f5f39938e43af067d4470b7fdd00f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:23 +0000
Subject: [PATCH 08/30] fix: don't modify the cached characters of a span while
 writing

---
 slate/screen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/slate/screen.py b/slate/screen.py
index f8bf5f2..e1650ae 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -214,7 +214,9 @@ class Screen:
                 background = background
                 bg_has_alpha = background is not None and background.alpha != 1.0
 
-                chars = span.get_characters(exclude_color=True, always_include_sequence=True)
+                chars = list(
+                    span.get_characters(exclude_color=True, always_include_sequence=True)
+                )
                 chars_len = len(chars)
 
                 if i == last and y - self._scrollback_offset > self.height - 1:
-- 
2.43.0


From 48cdbbe885c25c368956cc4f61022544b8e67af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:25 +0000
Subject: [PATCH 09/30] fix: keep the sequences of a span's last character when
 it isn't reset after

---
 slate/span.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index 87c8564..bf891ab 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -441,10 +441,10 @@ class Span:  # pylint: disable=too-many-instance-attributes
                 remaining_sequences = ""
 
         if self.text != "":
-            last = self.text[-1]
+            last = remaining_sequences + self.text[-1]
 
             if sequences != "" and self.reset_after:
-                last = remaining_sequences + last + "\x1b[0m"
+                last += "\x1b[0m"
 
             chars.append(last)
 
-- 
2.43.0


From fbaf1c43085ca659e06ee497e201cf1a94d0b928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:26 +0000
Subject: [PATCH 10/30] fix: keep reset_after in mutated spans

---
 slate/span.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/slate/span.py b/slate/span.py
index bf891ab..199bc75 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -552,6 +552,7 @@ class Span:  # pylint: disable=too-many-instance-attributes
         """Creates a new Span object, mutated with the given options."""
 
         config = self.attrs
+        config["reset_after"] = self.reset_after  # type: ignore
         config.update(**options)  # type: ignore
 
         return self.__class__(**config)
-- 
2.43.0


From 92c137384924b8eab6c99d9fc4277abbddd259ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:01 +0000
Subject: [PATCH 11/30] fix: parse resets, leading text and adjacent sequences
 in Span.yield_from

---
 slate/span.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index 199bc75..10d1f30 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -43,7 +43,7 @@ UNSETTERS = {
 
 UNSETTERS_TO_STYLES = {value: key for key, value in UNSETTERS.items()}
 
-RE_ANSI_STYLES = re.compile(r"\x1b\[(?:(.*?))[mH]([^\x1b]+)(?=\x1b)")
+RE_ANSI_STYLES = re.compile(r"\x1b\[([^\x1b]*?)[mH]([^\x1b]*)(?=\x1b)")
 
 SVG_CHAR_WIDTH = 0.60167
 SVG_CHAR_HEIGHT = 1.265
@@ -189,6 +189,10 @@ def _parse_sequence(
 
             continue
 
+        if part in ("", "0"):
+            options.clear()
+            continue
+
         if part in SETTERS_TO_STYLES:
             options[SETTERS_TO_STYLES[part]] = True
             continue
@@ -352,13 +356,17 @@ class Span:  # pylint: disable=too-many-instance-attributes
 
         index = 0
         for mtch in RE_ANSI_STYLES.finditer(line):
+            if index == 0 and mtch.start() > 0:
+                yield Span(line[: mtch.start()])
+
             index = mtch.end()
             sequence, plain = mtch.groups()
 
             if (error_part := _parse_sequence(sequence, options)) is not None:
                 raise ValueError(f"Could not parse {error_part!r} in {line!r}.")
 
-            yield Span(plain, **options)  # type: ignore
+            if plain != "":
+                yield Span(plain, **options)  # type: ignore
 
         line = line.rstrip("\x1b")
 
-- 
2.43.0


From 6b6cd03cbd40ff4fb90bcfc1b0a0693b0aa083c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:02 +0000
Subject: [PATCH 12/30] fix: map style-ending sequences to existing span
 attributes

---
 slate/span.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index 10d1f30..b16fae9 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -32,13 +32,12 @@ UNSETTERS = {
     "italic": "23",
     "underline": "24",
     "blink": "25",
-    "blink2": "26",
+    "fast_blink": "26",
     "invert": "27",
-    "invisible": "28",
-    "strikethrough": "29",
+    "conceal": "28",
+    "strike": "29",
     "foreground": "39",
     "background": "49",
-    "overline": "54",
 }
 
 UNSETTERS_TO_STYLES = {value: key for key, value in UNSETTERS.items()}
@@ -210,6 +209,9 @@ def _parse_sequence(
                 if key == "bold":  # no-cov
                     options["dim"] = False
 
+                if key == "blink":
+                    options["fast_blink"] = False
+
             continue
 
         return part
-- 
2.43.0


From 4cff63ccd9ae3ac9e4b53e09b342208bf9ca99aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:03 +0000
Subject: [PATCH 13/30] fix: include the alpha value of parsed colors

---
 slate/span.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/span.py b/slate/span.py
index b16fae9..2e12c23 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -172,7 +172,7 @@ def _parse_sequence(
             color_buffer += part
 
             if _is_valid_color(color_buffer) and (
-                len(parts) >= i or "." not in parts[i + 1]
+                i + 1 >= len(parts) or "." not in parts[i + 1]
             ):
                 key = (
                     "back" if _is_background_color(color_buffer) else "fore"
-- 
2.43.0


From 000f1c180e715577b2558302e16273f04b9f89a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:05 +0000
Subject: [PATCH 14/30] fix: emit valid sequences for colors given by index or
 with an alpha value

---
 slate/color.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/slate/color.py b/slate/color.py
index 7791ac0..ee09554 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -196,6 +196,7 @@ class Color:  # pylint: disable = too-many-instance-attributes
 
         end = parts[-1]
         color_space = "eight_bit"
+        constructor = ";".join(parts)
 
         index = int(end)
 
@@ -217,6 +218,11 @@ class Color:  # pylint: disable = too-many-instance-attributes
                 index -= 92
                 is_background = True
 
+            # Not an SGR color, so it can only be an index into the 256 color palette
+            if str(index) == end:
+                color_space = "eight_bit"
+                constructor = f"{48 if is_background else 38};5;{index}"
+
         if not 0 <= index < 256:
             raise ValueError(
                 "Color ANSI index must be between 0 and 256,"
@@ -228,7 +234,7 @@ class Color:  # pylint: disable = too-many-instance-attributes
             is_background=is_background,
             alpha=alpha,
             _origin_colorspace=color_space,
-            _constructor=ansi,
+            _constructor=constructor,
         )
 
     @classmethod
-- 
2.43.0


From e96b644d8ad589445e19e31a4f43a43c4d763ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:06 +0000
Subject: [PATCH 15/30] fix: convert the 16 standard colors to greyscale too
 when NO_COLOR is set

---
 slate/color.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/slate/color.py b/slate/color.py
index ee09554..24dfc2b 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -286,7 +286,9 @@ class Color:  # pylint: disable = too-many-instance-attributes
 
         origin = ColorSpace(self._origin_colorspace)
 
-        if terminal.color_space >= origin and (
+        if terminal.color_space is not ColorSpace.NO_COLOR and (
+            terminal.color_space >= origin
+        ) and (
             self._constructor is not None and not self._constructor.startswith("#")
         ):
             return self._constructor
-- 
2.43.0


From c6c4f16775fb5cacfad88768cda99eeb2560bb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:49 +0000
Subject: [PATCH 16/30] fix: return None for sequences that aren't known mouse
 events

---
 slate/core.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/slate/core.py b/slate/core.py
index 7e2db8e..8b72a0d 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -159,6 +159,8 @@ RE_PALETTE_REPLY = re.compile(
     r"\x1b]((?:10)|(?:11));rgb:([0-9a-f]{4})\/([0-9a-f]{4})\/([0-9a-f]{4})\x1b\\"
 )
 
+RE_MOUSE_EVENT = re.compile(r"\x1b\[<[0-9]+;[0-9]+;[0-9]+[Mm]")
+
 RE_ANSI = re.compile(r"(?:\x1b\[(.*?)[mH])|(?:\x1b\](.*?)\x1b\\)|(?:\x1b_G(.*?)\x1b\\)")
 
 DEFAULT_COLOR_DEFAULTS = {"10": color("#dedede"), "11": color("#141414")}
@@ -318,13 +320,19 @@ def parse_mouse_event(code: str) -> str | None:
     if code == "\x1b" or code.count(";") != 2:
         return None
 
+    if RE_MOUSE_EVENT.fullmatch(code) is None:
+        return None
+
     sequence = code.lstrip("\x1b[<")
     event, posx, posy_pressed = sequence.split(";")
 
     posy = posy_pressed[:-1]
     pressed = posy_pressed[-1] == "M"
 
-    event_name = MOUSE_EVENTS[event]
+    event_name = MOUSE_EVENTS.get(event)
+
+    if event_name is None:
+        return None
 
     if not pressed:
         event_name = event_name.replace("click", "release")
-- 
2.43.0


From 078efa465cfda4c61f95130846846034f6d05f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:50 +0000
Subject: [PATCH 17/30] fix: use the correct control sequences for synchronized
 updates

---
 slate/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index 8b72a0d..022cfd9 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -152,8 +152,8 @@ SET_TITLE = "\x1b]0;{title}\a"
 RESTORE_TITLE = "\x1b[23;0t"
 
 QUERY_SYNCHRONIZED_UPDATE = "\x1b[?2026$p"
-BEGIN_SYNCHRONIZED_UPDATE = "\x1b[?2026$h"
-END_SYNCHRONIZED_UPDATE = "\x1b[?2026$l"
+BEGIN_SYNCHRONIZED_UPDATE = "\x1b[?2026h"
+END_SYNCHRONIZED_UPDATE = "\x1b[?2026l"
 
 RE_PALETTE_REPLY = re.compile(
     r"\x1b]((?:10)|(?:11));rgb:([0-9a-f]{4})\/([0-9a-f]{4})\/([0-9a-f]{4})\x1b\\"
-- 
2.43.0


From b2b15198eecd9b6db63efd566150d617dc3dc127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:51 +0000
Subject: [PATCH 18/30] fix: store and restore the original title exactly once

---
 slate/terminal.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index c9f81bf..6e6ec3a 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -234,7 +234,7 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
 
         finally:
             self.write_control(END_ALT_BUFFER)
-            self.write_control(RESTORE_TITLE)
+            self.set_title(None)
 
             if hide_cursor:
                 self.show_cursor(True)
@@ -287,11 +287,13 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
         """
 
         if new is None:
-            self.write_control(RESTORE_TITLE)
+            if self._custom_title is not None:
+                self.write_control(RESTORE_TITLE)
+
             self._custom_title = None
             return
 
-        if not self._custom_title:
+        if self._custom_title is None:
             self.write_control(STORE_TITLE)
 
         self.write_control(SET_TITLE.format(title=new))
-- 
2.43.0


From 133b0db7972b4d6a2ba787f46d664f26809cb698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:53 +0000
Subject: [PATCH 19/30] fix: don't write a screen.txt file on every draw

---
 slate/terminal.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index 6e6ec3a..b645fe2 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -408,9 +408,6 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
 
         ansi = self._screen.render(origin=self.origin, redraw=redraw)
 
-        with open("screen.txt", "w") as f:
-            f.write(ansi)
-
         self.stream.write(ansi)
         self.stream.flush()
 
-- 
2.43.0


From 173d6c02231e3001c2737900c77fead8fbf92eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:54 +0000
Subject: [PATCH 20/30] fix: accept strings in Terminal.write_bulk

---
 slate/terminal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index b645fe2..0413e85 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -376,7 +376,10 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
             The number of cells that have been updated as a result of the write.
         """
         changes = self._screen.write_bulk(
-            data,
+            [
+                (cursor, Span.yield_from(line) if isinstance(line, str) else line)
+                for cursor, line in data
+            ],
             force_overwrite=force_overwrite,
             terminal_background=self.background_color.as_background()
         )
-- 
2.43.0


From bd0f76fa18a67110efa93d9098b955c8210df6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:55 +0000
Subject: [PATCH 21/30] fix: don't overwrite previously fed text

---
 slate/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/slate/core.py b/slate/core.py
index 022cfd9..e86e364 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -389,6 +389,7 @@ def feed(text: str) -> None:
     This can be used to manually "interrupt" an ongoing getch call.
     """
 
+    feeder_stream.seek(0, os.SEEK_END)
     feeder_stream.write(text)
     feeder_stream.seek(0)
 
-- 
2.43.0


From e91746b0983ba0e5c657c2961fe82fcbd6d63cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:56 +0000
Subject: [PATCH 22/30] fix: don't group differently colored characters into
 one span

---
 slate/span.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index 2e12c23..c26138b 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -397,8 +397,8 @@ class Span:  # pylint: disable=too-many-instance-attributes
 
         for char, fg, bg in line:
             # If the previous is completely equal skip parsing to a span
-            if str(char) == prev_str:
-                group = group.mutate(text=group.text + char[-1])
+            if (str(char), fg, bg) == (prev_str, None, None):
+                group = group.mutate(text=group.text + char[-1:])
                 continue
 
             span = cls.first_from(char)
-- 
2.43.0


From 130997302a70c460022b77702990a1a1036dd146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:58 +0000
Subject: [PATCH 23/30] fix: emit valid style and fill attributes in exported
 SVGs

---
 slate/span.py     | 4 ++--
 slate/terminal.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index c26138b..31579e4 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -61,7 +61,7 @@ STYLE_TO_CSS = {
     "italic": ("font-style", "italic"),
     "dim": ("opacity", "0.7"),
     "underline": ("text-decoration", "underline"),
-    "strikethrough": ("text-decoration", "line-through"),
+    "strike": ("text-decoration", "line-through"),
     "overline": ("text-decoration", "overline"),
 }
 
@@ -551,7 +551,7 @@ class Span:  # pylint: disable=too-many-instance-attributes
             + f" x='{x}'"
             + f" y='{y + font_size}'"
             + f" fill='{foreground.hex}'"
-            + (f" styles='{styles}'" if inline_styles else "")
+            + (f" style='{styles}'" if inline_styles else "")
             + (f" class='{cls}'" if cls is not None else "")
             + f">{_escape_html(self.text)}</text>"
         )
diff --git a/slate/terminal.py b/slate/terminal.py
index 0413e85..bcfbf75 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -455,7 +455,7 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
 
         background = (
             f"<rect width='{total_width}' height='{total_height}'"
-            + f" fill='#{background_color.hex}' rx='9px'></rect>"
+            + f" fill='{background_color.hex}' rx='9px'></rect>"
         )
 
         return SVG_TEMPLATE.format(
-- 
2.43.0


From 03ed7dacb47570b2c784c248caf566529c3fc843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:00 +0000
Subject: [PATCH 24/30] fix: restore the terminal settings and SIGALRM handler
 on every exit path

---
 slate/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/slate/core.py b/slate/core.py
index e86e364..61500b6 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -370,6 +370,8 @@ def timeout(duration: float) -> Generator[None, None, None]:  # no-cov
     def _raise_timeout(sig: int, frame: Any) -> None:
         raise TimeoutException("The action has timed out.")
 
+    old_handler = signal.getsignal(signal.SIGALRM)
+
     try:
         # set the timeout handler
         signal.signal(signal.SIGALRM, _raise_timeout)
@@ -381,6 +383,7 @@ def timeout(duration: float) -> Generator[None, None, None]:  # no-cov
 
     finally:
         signal.alarm(0)
+        signal.signal(signal.SIGALRM, old_handler)
 
 
 def feed(text: str) -> None:
@@ -439,11 +442,12 @@ def _getch_posix(  # pylint: disable=used-before-assignment
 
     descriptor = stream.fileno()
     old_settings = termios.tcgetattr(descriptor)
-    tty.setcbreak(descriptor)
 
     buff = ""
 
     try:
+        tty.setcbreak(descriptor)
+
         buff += _read(1)
 
         while _is_ready(stream):
-- 
2.43.0


From df42e015158f20701b70045bb43734714cc8753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:44 +0000
Subject: [PATCH 25/30] fix: reject malformed color descriptions with a
 ValueError

---
 slate/color.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/slate/color.py b/slate/color.py
index 24dfc2b..a75f7a1 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -143,7 +143,7 @@ class Color:  # pylint: disable = too-many-instance-attributes
         ) -> None:
             object.__setattr__(self, key, value)
 
-        if any(not 0 <= val < 256 for val in self.rgb):
+        if len(self.rgb) != 3 or any(not 0 <= val < 256 for val in self.rgb):
             raise ValueError(
                 "Color RGB values must be between 0 and 256,"
                 + f" got {self.rgb!r} from {self._constructor!r}.",
@@ -186,6 +186,9 @@ class Color:  # pylint: disable = too-many-instance-attributes
                     + f" got {ansi!r}."
                 )
 
+            if len(parts) != 5:
+                raise ValueError(f"Expected 3 RGB values, got {ansi!r}.")
+
             return Color(
                 (int(parts[2]), int(parts[3]), int(parts[4])),
                 is_background=is_background,
@@ -194,6 +197,12 @@ class Color:  # pylint: disable = too-many-instance-attributes
                 _constructor=";".join(parts),
             )
 
+        if len(parts) > 1 and parts[:-1] not in [["38", "5"], ["48", "5"]]:
+            raise ValueError(
+                "Only colors with prefixes `38;5` and `48;5` are allowed,"
+                + f" got {ansi!r}."
+            )
+
         end = parts[-1]
         color_space = "eight_bit"
         constructor = ";".join(parts)
@@ -243,6 +252,9 @@ class Color:  # pylint: disable = too-many-instance-attributes
 
         hexstring = hexstring.lstrip("#")
 
+        if len(hexstring) != 6:
+            raise ValueError(f"Expected 6 hexadecimal digits, got {hexstring!r}.")
+
         return cls(
             (
                 int(hexstring[:2], base=16),
-- 
2.43.0


From 2fd9dc2c3d429228eb383875c6f53e221f7e43e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:08 +0000
Subject: [PATCH 26/30] fix: reject a color code consisting of an alpha value
 only

---
 slate/color.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/color.py b/slate/color.py
index a75f7a1..9e7aa6a 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -173,7 +173,7 @@ class Color:  # pylint: disable = too-many-instance-attributes
 
         parts = ansi.split(";")
 
-        if "." in parts[-1]:
+        if len(parts) > 1 and "." in parts[-1]:
             alpha = float(parts[-1])
             parts.pop()
 
@@ -502,7 +502,7 @@ def color(
         alpha = 1.0
         parts = description.split(";")
 
-        if "." in parts[-1]:
+        if len(parts) > 1 and "." in parts[-1]:
             description = ";".join(parts[:-1])
             alpha = float(parts[-1])
 
-- 
2.43.0


From 1ef64f8af99c34a5003d5fa6f97f1b26a4ffacbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:02 +0000
Subject: [PATCH 27/30] fix: parse the opaque style back, and reject code 98

---
 slate/span.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/span.py b/slate/span.py
index 31579e4..fdd0f0e 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -163,7 +163,7 @@ def _parse_sequence(
     for i, part in enumerate(parts):
         if (
             part.isdigit()
-            and int(part) in chain(range(30, 49), range(90, 108))
+            and int(part) in chain(range(30, 49), range(90, 98), range(100, 108))
             and part not in ["39", "49"]
         ):
             in_color = True
-- 
2.43.0


From 695216170735dd0ac7168f2b7a4528db5ef4320f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:48 +0000
Subject: [PATCH 28/30] fix: tint a character only by the layers written above
 it

---
 slate/screen.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/slate/screen.py b/slate/screen.py
index e1650ae..3dc11e2 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -189,7 +189,7 @@ class Screen:
             The number of cells that have been updated as a result of the write.
         """
 
-        blank = (" ", None, terminal_background, False, False)
+        blank = (" ", None, terminal_background, False, 0)
         write_matrix = [
             [blank] * self.width
             for _ in range(self.height)
@@ -247,20 +247,23 @@ class Screen:
                     final_fg = foreground
                     final_bg = background
                     final_char = char
+                    covered = 0
 
                     if write_matrix[y][x] is not blank and bg_has_alpha:
                         alpha_matrix[y][x].append(background)
+                        covered = len(alpha_matrix[y][x])
                         empty = RE_ANSI.sub("", char).strip() == "" and not span.opaque
 
                         final_fg = foreground if not empty else write_matrix[y][x][1]
                         final_bg = write_matrix[y][x][2]
                         final_char = char if not empty else write_matrix[y][x][0]
+                        covered = covered if not empty else write_matrix[y][x][4]
 
                     else:
                         # Nothing below an opaque write is visible
                         alpha_matrix[y][x].clear()
 
-                    write_matrix[y][x] = (final_char, final_fg, final_bg, last, char != final_char)
+                    write_matrix[y][x] = (final_char, final_fg, final_bg, last, covered)
 
                     x, y = next_x, next_y
 
@@ -281,7 +284,7 @@ class Screen:
                 except:
                     alpha_stack = {}
 
-                char, fg, bg, last, bleedthrough = cell
+                char, fg, bg, last, covered = cell
                 fg = fg or Color.white()
                 blent = bg
 
@@ -294,7 +297,8 @@ class Screen:
                     last = color
 
                     blent = _get_blended(blent, color, alpha_addition=0.1)
-                    if bleedthrough:
+                    # Only layers above the character tint it
+                    if i >= covered:
                         fg = _get_blended(fg, color, alpha_addition=0.1)
 
                 if blent and blent.alpha != 1.0:
-- 
2.43.0


From c27d49b296674837950ab1862aaf45a63cb47613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:06 +0000
Subject: [PATCH 29/30] fix: blend a translucent base with the terminal's
 background below further layers

---
 slate/screen.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slate/screen.py b/slate/screen.py
index 3dc11e2..41b36d6 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -296,6 +296,10 @@ class Screen:
 
                     last = color
 
+                    # A translucent base lets the terminal's background through
+                    if blent is None or blent.alpha != 1.0:
+                        blent = _get_blended(terminal_background, blent, alpha_addition=0.1)
+
                     blent = _get_blended(blent, color, alpha_addition=0.1)
                     # Only layers above the character tint it
                     if i >= covered:
-- 
2.43.0


From b656a03eca8bdc9eb71861aff46fc749a6d6e3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:49 +0000
Subject: [PATCH 30/30] fix: don't discard input typed between reads

---
 slate/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/core.py b/slate/core.py
index 61500b6..15d0af1 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -446,7 +446,7 @@ def _getch_posix(  # pylint: disable=used-before-assignment
     buff = ""
 
     try:
-        tty.setcbreak(descriptor)
+        tty.setcbreak(descriptor, termios.TCSADRAIN)
 
         buff += _read(1)
 
-- 
2.43.0

