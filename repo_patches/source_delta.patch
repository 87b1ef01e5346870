From 29f26c25d1c8ffde5fc4314e1b3406ad3561537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 1/9] fix: out-of-work padding re-stores the current byte

The padding opcodes stored the target's first byte without updating our
own memory map.  Where that byte differs from the one on screen without a
visual difference (HGR palette bit, equal greys) our model of the screen
no longer matched the player's memory, and later frames were encoded
against a screen that is not there.
---
 transcoder/video.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/transcoder/video.py b/transcoder/video.py
index fe90147..6e03a72 100644
--- a/transcoder/video.py
+++ b/transcoder/video.py
@@ -245,8 +245,10 @@ class Video:
         #             target_pixelmap.packed[diff_p, diff_o]))
         #     assert False
 
-        # If we run out of things to do, pad forever
-        content = target.page_offset[0, 0]
+        # If we run out of things to do, pad forever.  Store what is already
+        # there, so that our memory map stays in sync with the player: the
+        # target may differ in memory even when there is no visual difference.
+        content = source.page_offset[0, 0]
         while True:
             yield 32, content, [0, 0, 0, 0]
 
-- 
2.43.0


From 4a6b7531af60129ea76ea4cd6f9e8d8d503b4928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 2/9] fix: use all four offsets of a tick opcode

The search for further offsets at which to store the content byte stopped
after two, so that the fourth store of every opcode was a repeat of the
first one.
---
 transcoder/video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transcoder/video.py b/transcoder/video.py
index 6e03a72..f97eab1 100644
--- a/transcoder/video.py
+++ b/transcoder/video.py
@@ -178,7 +178,7 @@ class Video:
                         priorities, (-p, random.getrandbits(8), page, o))
 
                 offsets.append(o)
-                if len(offsets) == 3:
+                if len(offsets) == 4:
                     break
 
             # Pad to 4 if we didn't find enough
-- 
2.43.0


From d79f1fe67b5d98eba7ec6124d4ec62fdab26e6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 3/9] fix: silent audio stays silent

The normalization of silent audio was infinite, and 0 * inf = NaN was then
converted to the most negative speaker level.
---
 transcoder/audio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transcoder/audio.py b/transcoder/audio.py
index f537be2..c1804c0 100644
--- a/transcoder/audio.py
+++ b/transcoder/audio.py
@@ -78,6 +78,9 @@ class Audio:
                     break
         a = self._decode(f, raw)
         norm = np.max(np.abs(np.percentile(a, [0.5, 99.5])))
+        if norm == 0:
+            # Silence, there is nothing to normalize
+            return 1.
 
         return 16384. / norm
 
-- 
2.43.0


From c42be81dddee4dcb1b521b8d441a1986cfa1b627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 4/9] fix: report failures of the frame conversion thread

An exception in the background thread (e.g. bmp2dhr missing or failing)
ended the thread without any marker in the queue, so the encoder waited
forever for the next frame.
---
 transcoder/frame_grabber.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/transcoder/frame_grabber.py b/transcoder/frame_grabber.py
index 2940f1d..a354025 100644
--- a/transcoder/frame_grabber.py
+++ b/transcoder/frame_grabber.py
@@ -64,6 +64,8 @@ class FileFrameGrabber(FrameGrabber):
         os.makedirs(frame_dir, exist_ok=True)
 
         q = queue.Queue(maxsize=10)
+        # Exception that ended the background thread, if any
+        errors = []
 
         def _hgr_decode(_idx, _frame):
             outfile = "%s/%08dC.BIN" % (frame_dir, _idx)
@@ -121,10 +123,15 @@ class FileFrameGrabber(FrameGrabber):
                 _dhgr_decode if self.video_mode == VideoMode.DHGR else
                 _hgr_decode
             )
-            for _idx, _frame in enumerate(self._frame_grabber()):
-                q.put(decode(_idx, _frame))
-
-            q.put((None, None))
+            try:
+                for _idx, _frame in enumerate(self._frame_grabber()):
+                    q.put(decode(_idx, _frame))
+            except Exception as e:
+                errors.append(e)
+            finally:
+                # Always tell the consumer that there are no more frames, or
+                # it would wait for them forever
+                q.put((None, None))
 
         t = threading.Thread(target=worker, daemon=True)
         t.start()
@@ -145,3 +152,5 @@ class FileFrameGrabber(FrameGrabber):
             q.task_done()
 
         t.join()
+        if errors:
+            raise errors[0]
-- 
2.43.0


From 6f15751719065bbc5d9fee530122dffc224464ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 5/9] fix: convert frames again that an interrupted run left
 incomplete

A run that was killed while bmp2dhr was writing leaves a truncated file
behind, which every later run then picked up and failed on.
---
 transcoder/frame_grabber.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/transcoder/frame_grabber.py b/transcoder/frame_grabber.py
index a354025..6714fba 100644
--- a/transcoder/frame_grabber.py
+++ b/transcoder/frame_grabber.py
@@ -50,6 +50,14 @@ class FileFrameGrabber(FrameGrabber):
             video_mode.name,
             palette.name)
 
+    @staticmethod
+    def _is_converted(filename) -> bool:
+        """Whether a complete converted frame is left from an earlier run."""
+        try:
+            return os.stat(filename).st_size == 8192
+        except FileNotFoundError:
+            return False
+
     def _palette_arg(self) -> str:
         return "P%d" % self.palette.value
 
@@ -71,9 +79,7 @@ class FileFrameGrabber(FrameGrabber):
             outfile = "%s/%08dC.BIN" % (frame_dir, _idx)
             bmpfile = "%s/%08d.bmp" % (frame_dir, _idx)
 
-            try:
-                os.stat(outfile)
-            except FileNotFoundError:
+            if not self._is_converted(outfile):
                 _frame = _frame.resize((280, 192), resample=Image.LANCZOS)
                 _frame.save(bmpfile)
 
@@ -95,10 +101,8 @@ class FileFrameGrabber(FrameGrabber):
 
             bmpfile = "%s/%08d.bmp" % (frame_dir, _idx)
 
-            try:
-                os.stat(mainfile)
-                os.stat(auxfile)
-            except FileNotFoundError:
+            if not (self._is_converted(mainfile)
+                    and self._is_converted(auxfile)):
                 _frame = _frame.resize((280, 192), resample=Image.LANCZOS)
                 _frame.save(bmpfile)
 
-- 
2.43.0


From 27279b542fa61fd9b8d6417d2205559012c67616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 6/9] fix: derive output paths from the extension only

For an input without extension the frame directory was /DHGR/NTSC in the
root directory and the default output file was named a2m, .a2m or ..a2m
(or landed in a parent directory), depending on the dots in its path.
---
 transcoder/frame_grabber.py | 9 +++++----
 transcoder/main.py          | 3 ++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/transcoder/frame_grabber.py b/transcoder/frame_grabber.py
index 6714fba..515285b 100644
--- a/transcoder/frame_grabber.py
+++ b/transcoder/frame_grabber.py
@@ -45,10 +45,11 @@ class FileFrameGrabber(FrameGrabber):
 
     @staticmethod
     def _output_dir(filename, video_mode, palette) -> str:
-        return "%s/%s/%s" % (
-            ".".join(filename.split(".")[:-1]),
-            video_mode.name,
-            palette.name)
+        root, ext = os.path.splitext(filename)
+        if not ext:
+            # Don't collide with the input file itself
+            root += ".frames"
+        return "%s/%s/%s" % (root, video_mode.name, palette.name)
 
     @staticmethod
     def _is_converted(filename) -> bool:
diff --git a/transcoder/main.py b/transcoder/main.py
index 398532d..703d8b0 100644
--- a/transcoder/main.py
+++ b/transcoder/main.py
@@ -1,6 +1,7 @@
 """Transcodes an input video file to ][-Vision format."""
 
 import argparse
+import os
 
 import movie
 import palette
@@ -62,7 +63,7 @@ def main(args):
         out_filename = args.output
     else:
         # Replace suffix with .a2m
-        out_filename = ".".join(filename.split(".")[:-1] + ["a2m"])
+        out_filename = os.path.splitext(filename)[0] + ".a2m"
 
     with open(out_filename, "wb") as out:
         for bytes_out, b in enumerate(m.emit_stream(m.encode())):
-- 
2.43.0


From 7111590e0cc626c5ee58c402ed52a34766133d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 7/9] fix: soft switch status reads report the switch state

0x80 & True is 0, so every switch always read as off.
---
 simulator/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/machine.py b/simulator/machine.py
index bc6d076..4f4220f 100644
--- a/simulator/machine.py
+++ b/simulator/machine.py
@@ -73,7 +73,7 @@ class SoftSwitch:
     def get(self) -> int:
         Log(self.name, "Reading soft switch (%s)" % (
             "on" if self.state else "off"))
-        return 0x80 & self.state
+        return 0x80 if self.state else 0x00
 
     @staticmethod
     def unimplemented(_):
-- 
2.43.0


From 1c6a5a4631c54c532805f1c59294e599ec09957d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 8/9] fix: writing WADRH keeps all of the low address byte

Bit 7 of the low byte was lost when the high byte was written after it.
---
 simulator/apple2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simulator/apple2.py b/simulator/apple2.py
index 7ab06cd..bea9ab6 100644
--- a/simulator/apple2.py
+++ b/simulator/apple2.py
@@ -58,7 +58,8 @@ class AppleII(machine.Machine):
 
         def _uther_wadrh(mode, value):
             old = self.uthernet.ptr
-            self.uthernet.ptr = (value << 8) | (self.uthernet.ptr & 0x7f)
+            self.uthernet.ptr = (
+                    ((value & 0x7f) << 8) | (self.uthernet.ptr & 0xff))
             machine.Log("WADRH", "%04x -> %04x" % (old, self.uthernet.ptr))
 
         def _uther_wadrl(mode, value):
-- 
2.43.0


From 2549dea0025cf3a25909cea310319f5dd032a521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:56 +0000
Subject: [PATCH 9/9] fix: decode sound buffers that end in the middle of a
 sample

A decoder may deliver the sound in buffers of any size: ffmpeg's output is
read 8192 bytes at a time, which is no whole number of samples for 3, 5 or 6
channels, so transcoding e.g. a movie with 5.1 sound ended with a ValueError.
---
 transcoder/audio.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/transcoder/audio.py b/transcoder/audio.py
index c1804c0..b83ded8 100644
--- a/transcoder/audio.py
+++ b/transcoder/audio.py
@@ -76,6 +76,8 @@ class Audio:
                 raw.extend(bytearray(buf))
                 if len(raw) > read_bytes:
                     break
+        # The last buffer may end in the middle of a sample
+        del raw[len(raw) - len(raw) % (2 * f.channels):]
         a = self._decode(f, raw)
         norm = np.max(np.abs(np.percentile(a, [0.5, 99.5])))
         if norm == 0:
@@ -90,7 +92,15 @@ class Audio:
         :return:
         """
         with audioread.audio_open(self.filename) as f:
+            # Start of a sample that continues in the next buffer
+            partial = b""
             for buf in f.read_data(128 * 1024):
+                buf = partial + bytes(buf)
+                end = len(buf) - len(buf) % (2 * f.channels)
+                buf, partial = buf[:end], buf[end:]
+                if not buf:
+                    continue
+
                 a = self._decode(f, buf)
 
                 a /= 16384  # normalize to -1.0 .. 1.0
-- 
2.43.0

