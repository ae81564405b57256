From 6b02b13690959c381e767a35cb78edf35164b8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:21 +0000
Subject: [PATCH 01/35] fix: freqcd: do not reapply last correction when a read
 completes no event

A read that leaves no complete event (e.g. fewer than 8 bytes available) added
the previous block's correction (or an uninitialised value, on the first read)
to the accumulated correction a second time.
---
 src/fpfind/freqcd.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 146f0c4..2598268 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -380,8 +380,11 @@ int main(int argc, char *argv[]) {
             }
 
             /* update reference timestamp to keep within 20 hour overflow condition */
-            tsref = tsmeas;
-            tsoverflowcorr += tscorr;
+            // only if an event was digested, i.e. 'tsmeas' and 'tscorr' are current
+            if (eventnum > 0) {
+                tsref = tsmeas;
+                tsoverflowcorr += tscorr;
+            }
         }
 
         // Read frequency correction values
-- 
2.43.0


From d37df2efcacbf06c4c9f3a2a45042a8378348355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:02 +0000
Subject: [PATCH 02/35] fix: freqcd: keep correcting across the 54-bit
 timestamp rollover

---
 src/fpfind/freqcd.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 2598268..7853135 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -86,6 +86,7 @@
 #define OUTBUFENTRIES 1024         /* max. elements in output buffer */
 #define FREQBUFSIZE 100            /* max. length of frequency correction values */
 #define RETRYREADWAIT 500000       /* sleep time in usec after an empty read */
+#define TSBITS 54                  /* number of bits in a timestamp */
 #define FCORR_ARESBITS -34         /* absolute resolution of correction, in power of 2 */
 #define FCORR_AMAXBITS -13         /* absolute maximum allowed correction, in power of 2 */
 #define FCORR_DEFAULT 0            /* frequency correction in units of 2^FCORR_ARESBITS */
@@ -164,6 +165,7 @@ int main(int argc, char *argv[]) {
     const int FCORR_MAX = 1 << (FCORR_AMAXBITS - FCORR_ARESBITS);
     const int FCORR_TBITS1 = -FCORR_AMAXBITS - 1;  // bit truncations when correcting timestamp
     const int FCORR_TBITS2 = (FCORR_AMAXBITS - FCORR_ARESBITS) + 1;
+    const ull TSMASK = ((ull)1 << TSBITS) - 1;  // valid bits of timestamp
 
     // Conversion factor for decimal mode, i.e. 1e-10/2^-34 = ~1.7179869
     // Ratio inverted due to negative signs in exponents.
@@ -358,7 +360,8 @@ int main(int argc, char *argv[]) {
                 tsmeas = ((ull)high << 22) | (low >> 10);
 
                 /* calculate timestamp correction */
-                tscorr = ((ll)((tsmeas - tsref) >> FCORR_TBITS1) * fcorr) >> FCORR_TBITS2;
+                // 54-bit timestamps roll over every 20 hours
+                tscorr = ((ll)(((tsmeas - tsref) & TSMASK) >> FCORR_TBITS1) * fcorr) >> FCORR_TBITS2;
                 ts = tsmeas + tscorr + tsoverflowcorr;
 
                 /* write corrected timestamp to output buffer */
-- 
2.43.0


From 69103144619f4b94f925c233cf52d8d6f0dd8e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:02 +0000
Subject: [PATCH 03/35] fix: freqcd: carry truncated correction bits over to
 the next read

---
 src/fpfind/freqcd.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 7853135..e14ed2c 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -274,7 +274,9 @@ int main(int argc, char *argv[]) {
                     // noting subsequent initializations should zero 'tsref'
     int isset_tsref = 0;    // initialization marker for tsref
     ull ts, tsmeas;         // timestamp
+    ull tselapsed = 0;      // elapsed time since 'tsref', in units of 2^FCORR_TBITS1
     ll tscorr;              // timestamp correction
+    ll tsfrac = 0;          // fractional part of correction accumulated at 'tsref'
     ll tsoverflowcorr = 0;  // timestamp overflow corrections
     unsigned int high;      // high word in timestamp
     unsigned int low;       // low word in timestamp
@@ -361,7 +363,8 @@ int main(int argc, char *argv[]) {
 
                 /* calculate timestamp correction */
                 // 54-bit timestamps roll over every 20 hours
-                tscorr = ((ll)(((tsmeas - tsref) & TSMASK) >> FCORR_TBITS1) * fcorr) >> FCORR_TBITS2;
+                tselapsed = ((tsmeas - tsref) & TSMASK) >> FCORR_TBITS1;
+                tscorr = ((ll)tselapsed * fcorr + tsfrac) >> FCORR_TBITS2;
                 ts = tsmeas + tscorr + tsoverflowcorr;
 
                 /* write corrected timestamp to output buffer */
@@ -383,9 +386,11 @@ int main(int argc, char *argv[]) {
             }
 
             /* update reference timestamp to keep within 20 hour overflow condition */
-            // only if an event was digested, i.e. 'tsmeas' and 'tscorr' are current
+            // only if an event was digested, i.e. 'tselapsed' and 'tscorr' are current
+            // truncated bits are carried over, so that none are lost between reads
             if (eventnum > 0) {
-                tsref = tsmeas;
+                tsfrac = ((ll)tselapsed * fcorr + tsfrac) & (((ll)1 << FCORR_TBITS2) - 1);
+                tsref = (tsref + (tselapsed << FCORR_TBITS1)) & TSMASK;
                 tsoverflowcorr += tscorr;
             }
         }
-- 
2.43.0


From b54940bd915059eef62bfb5326adc41df7d4a57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:43 +0000
Subject: [PATCH 04/35] fix: freqcd: keep correction values split over several
 reads intact

---
 src/fpfind/freqcd.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index e14ed2c..0207150 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -435,13 +435,17 @@ int main(int argc, char *argv[]) {
             }
 
             /* clear parsed numbers from freqbuffer */
-            if (next_num_idx > 0) {
-                freqbytespartial = freqbytesread - next_num_idx;
-                for (i = freqbytesread - freqbytespartial, j = 0; j < freqbytespartial; i++, j++) {
-                    freqbuffer[j] = freqbuffer[i];
-                }
-                freqbuffer_next = &freqbuffer[freqbytespartial];
+            // unterminated values are retained for completion by the next read
+            freqbytespartial = freqbytesread - next_num_idx;
+            for (i = next_num_idx, j = 0; j < freqbytespartial; i++, j++) {
+                freqbuffer[j] = freqbuffer[i];
+            }
+            // values overflowing the buffer are invalid: discard until newline
+            if (freqbytespartial == FREQBUFSIZE - 1) {
+                freqbuffer[0] = 'x';
+                freqbytespartial = 1;
             }
+            freqbuffer_next = &freqbuffer[freqbytespartial];
         }
 
         // TODO: Shift this back to select call to write only when pipe available,
-- 
2.43.0


From f4337cafc1d521dde8b37ebdc9ee882bd54380ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:16 +0000
Subject: [PATCH 05/35] fix: freqcd: reject corrections that do not fit or
 parse as an integer

---
 src/fpfind/freqcd.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 0207150..df102ac 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -130,7 +130,7 @@ int readint(char *buff) {
     long value;
     value = strtol(buff, &end, 10);
     // string is a decimal, zero-terminated, and fits in an int
-    if ((end != buff) && (*end == 0) && (abs(value) < INT_MAX))
+    if ((end != buff) && (*end == 0) && (value > -INT_MAX) && (value < INT_MAX))
         return (int)value;
     return INT_MAX;
 }
@@ -195,7 +195,8 @@ int main(int argc, char *argv[]) {
             freqfilename[FNAMELENGTH-1] = 0;  // security termination
             break;
         case 'f':
-            if (sscanf(optarg, "%d", &fcorr) != 1) return -emsg(4);
+            fcorr = readint(optarg);
+            if (fcorr == INT_MAX) return -emsg(4);
             break;
         case 'x':
             islegacy = 1;
@@ -211,8 +212,10 @@ int main(int argc, char *argv[]) {
 
     /* check specified frequency correction is within-bounds */
     // needs to be done after argument reading for position-agnostic '-f'
-    if (isdecimal) fcorr = (int) fcorr * FCORR_DTOB;
-    if (abs(fcorr) >= FCORR_MAX) return -emsg(5);
+    // and before the integer conversion, which may overflow in decimal mode
+    double fcorr_bin = isdecimal ? fcorr * FCORR_DTOB : fcorr;
+    if (fabs(fcorr_bin) >= FCORR_MAX) return -emsg(5);
+    fcorr = (int) fcorr_bin;
 
     /* set input and output handler */
     int inhandle = 0;  // stdin by default
-- 
2.43.0


From 5571f0b5ccfc59253d994eb8e45da9c23dead479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:16 +0000
Subject: [PATCH 06/35] fix: freqcd: use file names as given, without
 truncation

---
 src/fpfind/freqcd.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index df102ac..4e56842 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -79,8 +79,6 @@
 #include <math.h>    // pow(..., 10)
 
 /* default definitions */
-#define FNAMELENGTH 200            /* length of file name buffers */
-#define FNAMEFORMAT "%200s"        /* for sscanf of filenames */
 #define FILE_PERMISSONS 0644       /* for all output files */
 #define INBUFENTRIES 1024          /* max. elements in input buffer */
 #define OUTBUFENTRIES 1024         /* max. elements in output buffer */
@@ -173,9 +171,9 @@ int main(int argc, char *argv[]) {
 
     /* parse options */
     int fcorr = FCORR_DEFAULT;  // frequency correction value
-    char infilename[FNAMELENGTH] = {};  // store filename
-    char outfilename[FNAMELENGTH] = {};  // store filename
-    char freqfilename[FNAMELENGTH] = {};  // store filename
+    char *infilename = "";  // store filename
+    char *outfilename = "";  // store filename
+    char *freqfilename = "";  // store filename
     int islegacy = 0;  // mark if format is legacy
     int isdecimal = 0;  // mark if frequency input is in decimal units
     int opt;  // for getopt options
@@ -183,16 +181,16 @@ int main(int argc, char *argv[]) {
     while ((opt = getopt(argc, argv, "i:o:F:f:xdh")) != EOF) {
         switch (opt) {
         case 'i':
-            if (sscanf(optarg, FNAMEFORMAT, infilename) != 1) return -emsg(2);
-            infilename[FNAMELENGTH-1] = 0;  // security termination
+            if (!optarg[0]) return -emsg(2);
+            infilename = optarg;
             break;
         case 'o':
-            if (sscanf(optarg, FNAMEFORMAT, outfilename) != 1) return -emsg(8);
-            outfilename[FNAMELENGTH-1] = 0;  // security termination
+            if (!optarg[0]) return -emsg(8);
+            outfilename = optarg;
             break;
         case 'F':
-            if (sscanf(optarg, FNAMEFORMAT, freqfilename) != 1) return -emsg(10);
-            freqfilename[FNAMELENGTH-1] = 0;  // security termination
+            if (!optarg[0]) return -emsg(10);
+            freqfilename = optarg;
             break;
         case 'f':
             fcorr = readint(optarg);
-- 
2.43.0


From 526c7c3eb183f0c9a166ec12fa13962e5bd3db5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:21 +0000
Subject: [PATCH 07/35] fix: parse_timestamps: read a0 and a2 timestamps with
 full 54-bit precision

---
 src/fpfind/lib/parse_timestamps.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index 24200ab..7a2d562 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -105,10 +105,10 @@ def read_a0(
         the function signature to maintain parity with 'read_a1'.
     """
     data = np.genfromtxt(filename, delimiter="\n", dtype="U8")
-    data = np.array([int(v,16) for v in data]).reshape(-1, 2)
+    data = np.array([int(v,16) for v in data], dtype=np.uint64).reshape(-1, 2)
     t = ((np.uint64(data[:, 1]) << 22) + (data[:, 0] >> 10))
     t = _format_timestamps(t, resolution, fractional)
-    p = data[:, 0] & 0xF
+    p = (data[:, 0] & 0xF).astype(np.int64)
     return t, p
 
 def read_a1(
@@ -135,10 +135,10 @@ def read_a2(
     ):
     """See documentation for 'read_a0'."""
     data = np.genfromtxt(filename, delimiter="\n", dtype="U16")
-    data = np.array([int(v,16) for v in data])
+    data = np.array([int(v,16) for v in data], dtype=np.uint64)
     t = np.uint64(data >> 10)
     t = _format_timestamps(t, resolution, fractional)
-    p = data & 0xF
+    p = (data & 0xF).astype(np.int64)
     return t, p
 
 def sread_a1(
@@ -217,10 +217,10 @@ def sread_a0(
                     break
 
                 data = buffer.strip().split("\n")
-                data = np.array([int(v,16) for v in data]).reshape(-1, 2)
+                data = np.array([int(v,16) for v in data], dtype=np.uint64).reshape(-1, 2)
                 t = ((np.uint64(data[:, 1]) << 22) + (data[:, 0] >> 10))
                 t = _format_timestamps(t, resolution, fractional)
-                p = data[:, 0] & 0xF
+                p = (data[:, 0] & 0xF).astype(np.int64)
                 yield t, p
 
     size = pathlib.Path(filename).stat().st_size
@@ -243,10 +243,10 @@ def sread_a2(
                     break
 
                 data = buffer.strip().split("\n")
-                data = np.array([int(v,16) for v in data])
+                data = np.array([int(v,16) for v in data], dtype=np.uint64)
                 t = np.uint64(data >> 10)
                 t = _format_timestamps(t, resolution, fractional)
-                p = data & 0xF
+                p = (data & 0xF).astype(np.int64)
                 yield t, p
 
     size = pathlib.Path(filename).stat().st_size
-- 
2.43.0


From 4d366914a231f98137001122cc9c44c13527f3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:21 +0000
Subject: [PATCH 08/35] fix: parse_timestamps: read a0 and a2 files with no
 events or a single event

---
 src/fpfind/lib/parse_timestamps.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index 7a2d562..9a27786 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -104,7 +104,8 @@ def read_a0(
         There is no legacy formatting for event types a0 and a2. Preserved in
         the function signature to maintain parity with 'read_a1'.
     """
-    data = np.genfromtxt(filename, delimiter="\n", dtype="U8")
+    with open(filename, "r") as f:
+        data = f.read().split()
     data = np.array([int(v,16) for v in data], dtype=np.uint64).reshape(-1, 2)
     t = ((np.uint64(data[:, 1]) << 22) + (data[:, 0] >> 10))
     t = _format_timestamps(t, resolution, fractional)
@@ -134,7 +135,8 @@ def read_a2(
         fractional: bool = True,
     ):
     """See documentation for 'read_a0'."""
-    data = np.genfromtxt(filename, delimiter="\n", dtype="U16")
+    with open(filename, "r") as f:
+        data = f.read().split()
     data = np.array([int(v,16) for v in data], dtype=np.uint64)
     t = np.uint64(data >> 10)
     t = _format_timestamps(t, resolution, fractional)
-- 
2.43.0


From ed72a2e2cf78779b00462bb9b1ed11b0e2426312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:45 +0000
Subject: [PATCH 09/35] fix: parse_timestamps: print statistics of files with
 no events or no duration

---
 src/fpfind/lib/parse_timestamps.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index 9a27786..9fd0982 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -425,8 +425,8 @@ def print_statistics(filename: str, t: list, p: list):
         ch4_counts=count(p & 0b1000 != 0),
         multi_counts=count(np.isin(p, (0, 1, 2, 4, 8), invert=True)),
         non_counts=count(p == 0),
-        start_timestamp=t[0],
-        end_timestamp=t[-1],
+        start_timestamp=t[0] if len(t) != 0 else None,
+        end_timestamp=t[-1] if len(t) != 0 else None,
         patterns=sorted(np.unique(p)),
     )
 
@@ -516,7 +516,8 @@ def print_statistics_report(
         print(f"Duration (s) : {duration:15.9f}")
         print(f"  ~ start    : {start_timestamp*1e-9:>15.9f}")
         print(f"  ~ end      : {end_timestamp*1e-9:>15.9f}")
-        print(f"Event rate (/s) : {int(num_events//duration)}")
+        if duration > 0:  # rate undefined otherwise, e.g. single event
+            print(f"Event rate (/s) : {int(num_events//duration)}")
         print(f"Detection patterns: {patterns}")
 
 
-- 
2.43.0


From 36b03cf34b43b82dcb891f4bdac3b13d7a7a4253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:30 +0000
Subject: [PATCH 10/35] fix: parse_epochs: raise on truncated T1, T2 and T4
 files

---
 src/fpfind/lib/parse_epochs.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 6f472a9..bb3d822 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -186,6 +186,8 @@ def read_T1(
         while True:
             event_high = f.read(4)
             event_low = f.read(4)
+            if 0 < len(event_high + event_low) < 8:
+                raise ValueError("File truncated within an event")
 
             value = \
                 (int.from_bytes(event_high, byteorder="little") << 32) \
@@ -244,7 +246,7 @@ def extract_bits(msb_size: int, buffer: int, size: int, fileobject=None):
     from file 'fileobject' provided (must be already open in "rb" mode).
 
     Raises:
-        ValueError: msb_size > size but fileobject not provided.
+        ValueError: msb_size > size but fileobject not provided or exhausted.
 
     Example:
 
@@ -264,8 +266,11 @@ def extract_bits(msb_size: int, buffer: int, size: int, fileobject=None):
     """
     # Append word from fileobject if insufficient bits
     if size < msb_size and fileobject:
+        word = fileobject.read(4)
+        if len(word) < 4:
+            raise ValueError("File truncated before termination")
         buffer <<= 32
-        buffer += int.from_bytes(fileobject.read(4), byteorder="little")
+        buffer += int.from_bytes(word, byteorder="little")
         size += 32
 
     # Extract MSB from buffer
-- 
2.43.0


From d08bcf9b953a1b6fbf3278db8e7408f218fffd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:30 +0000
Subject: [PATCH 11/35] fix: parse_epochs: read T2 files in integer units of
 4ps

---
 src/fpfind/lib/parse_epochs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index bb3d822..01c4b68 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -314,7 +314,7 @@ def read_T2(
     # Add 17-bit epoch LSB as per regular timestamp spec,
     # i.e. (17-bit epoch LSB)(32-bit timestamp) => 49-bits
     epoch_lsb = header.epoch & ((1 << 17) - 1)
-    timestamp = np.uint64(epoch_lsb << 32)  # current timestamp, deltas stored in T2
+    timestamp = epoch_lsb << 32  # current timestamp, deltas stored in T2
     buffer = 0
     size = 0  # number of bits in buffer
     with open(filename, "rb") as f:
-- 
2.43.0


From 7dc387a312c926f4e4bf4e731e61ab88f7381cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:30 +0000
Subject: [PATCH 12/35] fix: parse_epochs: convert dates to epochs with integer
 arithmetic

---
 src/fpfind/lib/parse_epochs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 01c4b68..7c8d636 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -114,7 +114,7 @@ def date2epoch(datetime=None):
         datetime = dt.datetime.now()
 
     total_seconds = int(datetime.timestamp())
-    epoch_val = int(total_seconds/125e-12) >> 32
+    epoch_val = (total_seconds * 8_000_000_000) >> 32  # units of 125ps
     return f"{epoch_val:08x}"
 
 
-- 
2.43.0


From 08958696ab58cef891136bbff8e13cbc49677374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:30 +0000
Subject: [PATCH 13/35] fix: parse_epochs: write T1 files from numpy timestamp
 arrays

---
 src/fpfind/lib/parse_epochs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 7c8d636..2da8be4 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -411,7 +411,7 @@ def write_T1(directory, full_epoch, timestamps, detectors):
         # 17-bit LSB epoch fits into a timestamp event
         timestamp_epoch = ((full_epoch & ((1<<17)-1)) << (32 + 5))
         for timestamp, detector in zip(timestamps, detectors):
-            full_timestamp = timestamp_epoch + timestamp
+            full_timestamp = timestamp_epoch + int(timestamp)
             event = (full_timestamp << 10) + int(detector)
 
             # Write high word, then low word
-- 
2.43.0


From 3466db1c1f912a3648898d823baaee08dd575dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:44 +0000
Subject: [PATCH 14/35] fix: utils: keep timestamps increasing when epochs wrap
 around 17 bits

---
 src/fpfind/lib/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index d11d69d..b722a12 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -404,10 +404,14 @@ def get_first_overlapping_epoch(
 def get_timestamp(dirname, file_type, first_epoch, skip_epoch, num_of_epochs):
     epochdir = pathlib.Path(dirname)
     timestamp = np.array([], dtype=np.float128)
+    epochint_first = epoch2int(first_epoch)
     for i in range(num_of_epochs):
-        epoch_name = epochdir / int2epoch(epoch2int(first_epoch) + skip_epoch + i)
+        epochint = epochint_first + skip_epoch + i
+        epoch_name = epochdir / int2epoch(epochint)
         reader = read_T1 if file_type == "T1" else read_T2
-        timestamp = np.append(timestamp, reader(epoch_name)[0])
+        # Timestamps only contain the 17-bit LSB of the epoch, i.e. wraps every 2^46 ns
+        offset = ((epochint >> 17) - (epochint_first >> 17)) << 46
+        timestamp = np.append(timestamp, reader(epoch_name)[0] + offset)
     return timestamp
 
 def normalize_timestamps(*T, skip: float = 0.0, preserve_relative: bool = True):
-- 
2.43.0


From 97546f98915ee41e4737521a5076c39bab329e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:44 +0000
Subject: [PATCH 15/35] fix: fpfind: return the first peak found in a full
 precompensation scan

---
 src/fpfind/fpfind.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index e06acf2..ae651dc 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -347,6 +347,7 @@ def fpfind(
         precompensation_fullscan: Specify whether to continue even after peak found.
     """
     df0s = precompensations
+    found = None
 
     # Go through all precompensations
     for df0 in df0s:
@@ -375,16 +376,16 @@ def fpfind(
         logger.info(f"Peak found,          {df0*1e6:7.3f} ppm: {str(e)}")
         # TODO: Justify the good enough frequency value
         # TODO(2024-01-31): Add looping code to customize refinement steps.
-        if precompensation_fullscan:
-            continue
-        break
+        if found is None:
+            found = (dt, f - 1)
+        if not precompensation_fullscan:
+            break
 
     # No appropriate frequency compensation found
-    else:
+    if found is None:
         raise ValueError("No peak found!")  # TODO
 
-    df = f - 1
-    return dt, df
+    return found
 
 
 def generate_precompensations(start, stop, step, ordered=False) -> list:
-- 
2.43.0


From fe79d507912d5422a4e714747f2137f90d3c41a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:44 +0000
Subject: [PATCH 16/35] fix: fpfind: invert time compensation with the matching
 frequency factor

---
 src/fpfind/fpfind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index ae651dc..3a648ec 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -664,7 +664,7 @@ def main():
     # Use if the low-count side is undergoing frequency correction
     flag = args.output
     if flag & 0b0001:
-        dt = -dt * (1 + df)    # t_alice * (1 + f_alice) + t_bob = 0
+        dt = -dt / (1 + df)    # t_alice * (1 + f_bob) + t_bob = 0
         df = 1 / (1 + df) - 1  # (1 + f_alice) * (1 + f_bob) = 1
     if flag & 0b0010:
         df = f"{round(df * (1 << 34)):d}"
-- 
2.43.0


From d13ea977f4be799ef4b22591a188bb4bcb7244c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:06 +0000
Subject: [PATCH 17/35] fix: generate_freqcd_testcase: apply the legacy flag to
 written events

---
 src/fpfind/lib/generate_freqcd_testcase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fpfind/lib/generate_freqcd_testcase.py b/src/fpfind/lib/generate_freqcd_testcase.py
index 2be66eb..e21f73a 100644
--- a/src/fpfind/lib/generate_freqcd_testcase.py
+++ b/src/fpfind/lib/generate_freqcd_testcase.py
@@ -71,6 +71,7 @@ def owrite(event):
     sys.stdout.flush()
 
 def main():
+    global LEGACY
     parser = argparse.ArgumentParser(description="Generates binary timestamp events for testing freqcd.")
     parser.add_argument("-o", help="output file, defaults to stdout stream")
     parser.add_argument("-t", type=int, nargs="+", help="list of timestamps in decimal")
-- 
2.43.0


From d79fd975230852ea86b0702017227fc5a3e95759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:06 +0000
Subject: [PATCH 18/35] fix: generate_freqcd_testcase: do not overwrite the
 file being read

---
 src/fpfind/lib/generate_freqcd_testcase.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/generate_freqcd_testcase.py b/src/fpfind/lib/generate_freqcd_testcase.py
index e21f73a..cb21608 100644
--- a/src/fpfind/lib/generate_freqcd_testcase.py
+++ b/src/fpfind/lib/generate_freqcd_testcase.py
@@ -115,8 +115,9 @@ def main():
 
         # Read binary timestamps from file
         try:
-            with open(inputfile, "wb") as f:
-                f.write(sys.stdin.buffer.read())
+            if HAS_TEMP_FILE:
+                with open(inputfile, "wb") as f:
+                    f.write(sys.stdin.buffer.read())
 
             # Parsing binary timestamps
             ts, _ = ts_parser.read_a1(inputfile, args.x)
-- 
2.43.0


From d3eabe0e12589a2c1019b29cec87db8701c3d306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:43 +0000
Subject: [PATCH 19/35] fix: keep time filter bounds exact beyond 2^53 units

Raw 4 ps timestamps are unsigned integers; comparing them with a 64-bit
float rounds those above 2^53 (ten hours), so that events next to a bound
were selected or dropped wrongly.
---
 src/fpfind/lib/parse_timestamps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index 9fd0982..b940a97 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -662,7 +662,7 @@ def get_timing_mask(
         start = t[0]
         i = 0
     else:
-        start *= (1e9 * resolution.value)  # convert s -> ns -> resolution
+        start = np_float(start) * (1e9 * resolution.value)  # convert s -> ns -> resolution
         i = bisect.bisect_left(t, start)  # binary search
     if start > t[-1]:
         return mask
@@ -672,7 +672,7 @@ def get_timing_mask(
         end = t[-1]
         j = len(t)
     else:
-        end *= (1e9 * resolution.value)  # convert s -> ns -> resolution
+        end = np_float(end) * (1e9 * resolution.value)  # convert s -> ns -> resolution
         j = bisect.bisect_right(t, end)  # binary search
     if end < t[0]:
         return mask
-- 
2.43.0


From 87abe4cf67146adc0ad94806e3dfd7e4620d5303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:28 +0000
Subject: [PATCH 20/35] fix: parse_epochs: raise on T1 files without
 termination

A file cut between two events was taken for a complete one whenever its
header announces no number of events.
---
 src/fpfind/lib/parse_epochs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 2da8be4..d8fad00 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -186,8 +186,8 @@ def read_T1(
         while True:
             event_high = f.read(4)
             event_low = f.read(4)
-            if 0 < len(event_high + event_low) < 8:
-                raise ValueError("File truncated within an event")
+            if len(event_high + event_low) < 8:
+                raise ValueError("File truncated before termination")
 
             value = \
                 (int.from_bytes(event_high, byteorder="little") << 32) \
-- 
2.43.0


From 276a946b8bfe5005b61c1b15a67d5194514fbd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:38 +0000
Subject: [PATCH 21/35] fix: parse_epochs: convert epochs to dates with integer
 arithmetic

Rounding in the product of a double could put the date of an epoch just
after a whole second at that second, which belongs to the epoch before.
---
 src/fpfind/lib/parse_epochs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index d8fad00..35c2717 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -126,8 +126,9 @@ def epoch2date(epoch):
     Args:
         epoch: Epoch in hex format, e.g. "ba1f36c0".
     """
-    total_seconds = (int(epoch, base=16) << 32) * 125e-12
-    return dt.datetime.fromtimestamp(total_seconds)
+    total_seconds, remainder = divmod(int(epoch, base=16) << 32, 8_000_000_000)
+    microseconds = round(remainder / 8_000)  # units of 125ps
+    return dt.datetime.fromtimestamp(total_seconds) + dt.timedelta(microseconds=microseconds)
 
 def epoch2int(epoch):
     return int(epoch, base=16)
-- 
2.43.0


From 117ac5c06d02f22d0e2d33682126d89b48f70cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:19 +0000
Subject: [PATCH 22/35] fix: utils: slice timestamps to an empty window without
 an error

A window after the last event raised IndexError, which ends the whole
precompensation scan instead of failing one search.
---
 src/fpfind/lib/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index b722a12..ce5227e 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -268,10 +268,10 @@ def slice_timestamps(
     if start is not None:
         ts = ts - start  # note: 'ts -= start' is in-place
         ts = ts[ts >= 0]
-    else:
+    elif len(ts) > 0:
         ts = ts - ts[0]
     if duration is not None:
-        if duration >= ts[-1]:
+        if len(ts) > 0 and duration >= ts[-1]:
             warnings.warn(
                 f"Desired duration ({duration*1e-9:.3f} s) is longer "
                 f"than available data ({ts[-1]*1e-9:.3f} s)")
-- 
2.43.0


From e75ef4b3c213ee68b1caef74b05b7c202ded2529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:19 +0000
Subject: [PATCH 23/35] fix: fpfind: include the stop value in the
 precompensation scan

Floor division of multiples loses the last step to rounding, e.g. no
search was done at +/-100ppm for a stop of 100ppm in steps of 10ppm.
---
 src/fpfind/fpfind.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index 3a648ec..6951232 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -411,9 +411,11 @@ def generate_precompensations(start, stop, step, ordered=False) -> list:
 
     # Prepare pre-compensations
     if ordered:
-        df0s = np.arange(0, int((stop-start) // step + 1))  # conventional
+        num_steps = np.floor((stop-start) / step + 1e-6)  # tolerate float error
+        df0s = np.arange(0, int(num_steps + 1))  # conventional
     else:
-        df0s = np.arange(1, int(stop // step + 1) * 2) // 2  # flip-flop
+        num_steps = np.floor(stop / step + 1e-6)
+        df0s = np.arange(1, int(num_steps + 1) * 2) // 2  # flip-flop
         df0s[::2] *= -1
 
     df0s = df0s.astype(np.float64) * step
-- 
2.43.0


From 92655338d685c2ed854c608a22f5eb069643fd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:19 +0000
Subject: [PATCH 24/35] fix: fpfind: do not take offsets below the resolution
 for spurious signals

When the first, coarse search measures no offset, the actual offset seen
at the next finer resolution exceeded the guard rails, and the coarse
result was returned with an error of many times the final resolution.
---
 src/fpfind/fpfind.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index 6951232..f1ec948 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -137,6 +137,7 @@ def time_freq(
     dt = 0
     f = 1
     curr_iteration = 1
+    last_resolution = resolution
 
     # Custom breakpoint for experimentation
     if _ENABLE_BREAKPOINT:
@@ -245,9 +246,10 @@ def time_freq(
         # Something went wrong with peak searching, to return intermediate
         # results which are likely near correct values.
         # TODO(2024-01-31): Fix this.
+        # Remaining offsets are only known to be within the last resolution.
         buffer = 10
-        threshold_dt = buffer*max(abs(dt), 1)
-        threshold_df = buffer*max(abs(f-1), 1e-9)
+        threshold_dt = buffer*max(abs(dt), last_resolution, 1)
+        threshold_df = buffer*max(abs(f-1), last_resolution/separation_duration, 1e-9)
         if curr_iteration != 1 and (
             abs(dt1)  > threshold_dt or \
             abs(_dt1) > threshold_dt or \
@@ -302,6 +304,7 @@ def time_freq(
 
         # Update for next iteration
         bts = (bts - dt1) / (1 + df1)
+        last_resolution = resolution
         resolution /= (separation_duration / duration / RES_REFINE_FACTOR)
         resolution = max(resolution, target_resolution)
         curr_iteration += 1
-- 
2.43.0


From 91541743053b60870621d5f408a212303e2ee81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:24 +0000
Subject: [PATCH 25/35] fix: fpfind: fail if the separation is too short to
 refine the resolution

With a separation of sqrt(2) or less the resolution never gets finer, and
the search goes on (almost) forever close to that value.
---
 src/fpfind/fpfind.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index f1ec948..0a2c298 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -302,6 +302,15 @@ def time_freq(
         if resolution == target_resolution:
             break
 
+        # Resolution never reaches target if it is not refined
+        if resolution > target_resolution and \
+                separation_duration <= duration * RES_REFINE_FACTOR:
+            raise PeakFindingFailed(
+                "Separation short",
+                significance=sig, resolution=resolution,
+                dt1=dt1, dt2=_dt1, dt=dt, df=f-1,
+            )
+
         # Update for next iteration
         bts = (bts - dt1) / (1 + df1)
         last_resolution = resolution
-- 
2.43.0


From c605e1a7a14ea69019ad6c5038efacb21ccdd773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 26/35] fix: utils: statistics without background, and the raw
 significance

---
 src/fpfind/lib/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index ce5227e..b6ba64a 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -78,26 +78,26 @@ class PeakStatistics:
 
     @property
     def total(self):
-        if len(self.signal) == 0:
+        if len(self.signal) == 0 or len(self.background) == 0:
             return None
         return sum(self.signal) - len(self.signal) * self.mean
 
     @property
     def significance(self):
-        if self.stdev == 0:
+        if not self.stdev:  # no background, or without deviation
             return 0
         return round((self.max - self.mean) / self.stdev, 3)
 
     @property
     def significance_raw(self):
-        if self.stdev == 0:
+        if not self.stdev:
             return None
-        full = np.hstack(self.signal, self.background)
+        full = np.hstack((self.signal, self.background))
         return (np.max(full) - np.mean(full)) / np.std(full)
 
     @property
     def significance2(self):
-        if self.stdev == 0:
+        if not self.stdev:
             return None
         # Estimate stdev after grouping in bins of 'len(signal)'
         length = (len(self.background) // len(self.signal)) * len(self.signal)
@@ -113,7 +113,7 @@ class PeakStatistics:
 
     @property
     def g2(self):
-        if self.mean == 0:
+        if not self.mean:
             return None
         return self.max / self.mean
 
-- 
2.43.0


From d869b3ebbd82dca774b8cb8b827ad2b38bc45234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 27/35] fix: utils: statistics around a given delay that is not
 an integer

---
 src/fpfind/lib/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index b6ba64a..ede8783 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -142,8 +142,8 @@ def get_statistics(
     if center is None:
         bin_center = np.argmax(hist)
     else:
-        bin_center = np.abs(center) // resolution
-        if center < 0:
+        bin_center = int(np.abs(center) // resolution)
+        if center < 0 and bin_center != 0:
             bin_center = len(hist) - bin_center
 
     # Retrieve size of symmetrical window
-- 
2.43.0


From 86625daef66c3280a32030a1bd9b2a6fd8a690be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 28/35] fix: utils: compute histogram_fft, without changing its
 arguments

---
 src/fpfind/lib/utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index ede8783..f5aeaf4 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -315,13 +315,16 @@ def histogram_fft(
 
     # Normalize timestamps
     acq_start = 0 if acq_start is None else acq_start
-    alice -= first_timestamp + acq_start
-    bob -= first_timestamp + acq_start
+    alice = alice - (first_timestamp + acq_start)
+    bob = bob - (first_timestamp + acq_start)
     bob = bob * (1 + freq_corr)
+    alice = slice_timestamps(alice, 0, duration)
+    bob = slice_timestamps(bob, 0, duration)
+    alen, blen = len(alice), len(bob)
 
     # Generate FFT
-    afft, alen = generate_fft(alice, num_bins, resolution, 0, duration)
-    bfft, blen = generate_fft(bob, num_bins, resolution, 0, duration)
+    afft = generate_fft(alice, num_bins, resolution)
+    bfft = generate_fft(bob, num_bins, resolution)
     result = get_xcorr(afft, bfft, filter)
     bins = np.arange(num_bins) * resolution
     if statistics:
-- 
2.43.0


From 162b9023afa590568568d4b1a441c94e997e626c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:28 +0000
Subject: [PATCH 29/35] fix: a correction line with a zero byte must not take
 effect

---
 src/fpfind/freqcd.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 4e56842..482b193 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -77,6 +77,7 @@
 #include <errno.h>   // select errno
 #include <limits.h>  // INT_MAX
 #include <math.h>    // pow(..., 10)
+#include <string.h>  // strlen
 
 /* default definitions */
 #define FILE_PERMISSONS 0644       /* for all output files */
@@ -427,6 +428,8 @@ int main(int argc, char *argv[]) {
                 if (freqbuffer[i] == '\n') {
                     freqbuffer[i] = 0;  // zero-terminate for readint
                     fcorr_tmp = readint(&freqbuffer[next_num_idx]);
+                    // a zero byte within the line hides the rest from readint
+                    if (strlen(&freqbuffer[next_num_idx]) != (size_t)(i - next_num_idx)) fcorr_tmp = INT_MAX;
                     if (abs(fcorr_tmp) < FCORR_MAX) fcorr = fcorr_tmp;
 #ifdef __DEBUG__
                     fprintf(stderr, "[debug] 'fcorr' updated to '%d'.\n", fcorr);
-- 
2.43.0


From 3d4ea8a98bcaabea2548ef796c7fc4c20becb256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:57 +0000
Subject: [PATCH 30/35] fix: converting a timestamp file onto itself must not
 destroy it

---
 src/fpfind/lib/parse_timestamps.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index b940a97..a9d02a6 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -771,6 +771,10 @@ def main():
 
     # Write out
     else:
+        # Writing truncates the file before any event is streamed from it
+        outpath = pathlib.Path(args.outfile)
+        if outpath.exists() and outpath.samefile(filepath):
+            raise ValueError("destination must differ from source when streaming.")
         stream, num_batches = sread(filepath, args.X, TSRES.PS4, False)
         stream = inline_filter(stream, TSRES.PS4)
         swrite(args.outfile, stream, num_batches, args.x, resolution=TSRES.PS4, display=(not args.quiet))
-- 
2.43.0


From f509808d8c9a4f513bb8266adceed246783f39a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:57 +0000
Subject: [PATCH 31/35] fix: freqcd must not truncate the file it reads events
 from

---
 src/fpfind/freqcd.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 482b193..ec4e380 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -73,6 +73,7 @@
 #include <stdlib.h>
 #include <fcntl.h>   // open, O_RDONLY, O_NONBLOCK
 #include <sys/select.h> // fd_set, usually implicitly declared
+#include <sys/stat.h> // fstat
 #include <unistd.h>  // getopt, select
 #include <errno.h>   // select errno
 #include <limits.h>  // INT_MAX
@@ -117,6 +118,7 @@ char *errormessage[] = {
     "Error opening freq correction stream source",
     "Freq correction value not newline terminated",
     "Unable to allocate memory to freqbuffer",
+    "Output stream is also the input stream source",
 };
 int emsg(int code) {
     fprintf(stderr, "%s\n", errormessage[code]);
@@ -225,8 +227,16 @@ int main(int argc, char *argv[]) {
 
     int outhandle = 1;  // stdout by default
     if (outfilename[0]) {
-        outhandle = open(outfilename, O_WRONLY | O_CREAT | O_TRUNC, FILE_PERMISSONS);
+        outhandle = open(outfilename, O_WRONLY | O_CREAT, FILE_PERMISSONS);
         if (outhandle == -1) return -emsg(9);
+
+        // discard previous contents, unless these are the events to be read
+        struct stat instat, outstat;
+        if (!fstat(outhandle, &outstat) && S_ISREG(outstat.st_mode)) {
+            if (!fstat(inhandle, &instat) && instat.st_ino == outstat.st_ino
+                    && instat.st_dev == outstat.st_dev) return -emsg(14);
+            if (ftruncate(outhandle, 0) == -1) return -emsg(9);
+        }
     }
 
     int freqhandle = 0;  // null by default (not stdin)
-- 
2.43.0


From b77b43ef9d7b78d8be3684205a08ccd415bba122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:09 +0000
Subject: [PATCH 32/35] fix: freqcd must not report success after losing events
 to an error

---
 src/fpfind/freqcd.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index ec4e380..b5a0a10 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -274,6 +274,7 @@ int main(int argc, char *argv[]) {
     fd_set rfds;
     struct timeval tv;
     int retval;
+    int isfailed = 0;  // mark if closed because of an error
 
     /* inbuffer reading variables */
     int i, j;
@@ -318,6 +319,7 @@ int main(int argc, char *argv[]) {
         retval = select(FD_SETSIZE, &rfds, NULL, NULL, &tv);
         if (retval == -1) {
             fprintf(stderr, "Error %d on select.\n", errno);
+            isfailed = 1;
             break;  // graceful close
         }
 
@@ -335,6 +337,7 @@ int main(int argc, char *argv[]) {
             }
             if (inbytesread_next == -1) {
                 fprintf(stderr, "Error %d on input read.\n", errno);
+                isfailed = 1;
                 break;  // graceful close
             }
 
@@ -426,6 +429,7 @@ int main(int argc, char *argv[]) {
             }
             if (freqbytesread_next == -1) {
                 fprintf(stderr, "Error %d on freqhandle read.\n", errno);
+                isfailed = 1;
                 break;
             }
 
@@ -474,6 +478,7 @@ int main(int argc, char *argv[]) {
 #endif
         if (retval != eventnum * sizeof(struct rawevent)) {
             fprintf(stderr, "Error %d on write.\n", errno);
+            isfailed = 1;
             break;  // graceful close
         }
         outevents = 0;  // clear outbuffer only after successful write
@@ -486,5 +491,5 @@ int main(int argc, char *argv[]) {
     free(inbuffer);
     free(outbuffer);
     if (freqfilename[0]) free(freqbuffer);
-    return 0;
+    return isfailed;
 }
-- 
2.43.0


From cb50ea007b200c5965966a0649d676e606d229a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:23 +0000
Subject: [PATCH 33/35] fix: first call of freqcd must keep working directory,
 paths and event stream

---
 src/fpfind/_postinstall |  2 +-
 src/fpfind/freqcd       | 24 ++++++++++++------------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/fpfind/_postinstall b/src/fpfind/_postinstall
index 7b4b278..3d38182 100755
--- a/src/fpfind/_postinstall
+++ b/src/fpfind/_postinstall
@@ -2,4 +2,4 @@
 # Performs post-installation compilation of freqcd. Do not modify.
 TARGET=freqcd
 if [ ! -z "$1" ]; then TARGET="$1"; fi
-gcc -o ${TARGET} freqcd.c lib/getopt.c
+gcc -o "${TARGET}" freqcd.c lib/getopt.c
diff --git a/src/fpfind/freqcd b/src/fpfind/freqcd
index ae28943..3958258 100755
--- a/src/fpfind/freqcd
+++ b/src/fpfind/freqcd
@@ -6,24 +6,25 @@
 # this script will automatically trigger the compilation and then proceed
 # to run the desired binary :)
 #
-# Works only on Linux, with 'ps', 'awk' and 'python3' dependencies.
+# Works only on Linux, with 'readlink' and 'python3' dependencies.
 
-# Gets the full call to current script, then retrieves program path
-# e.g. /bin/sh /home/justin/.pyenv/versions/3.10.6/bin/freqcd -x ...
-PROGRAM=$(ps -q $$ -o args= | awk -F ' ' '{print $2}')
+# Gets the absolute path to the current script
+# e.g. /home/justin/.pyenv/versions/3.10.6/bin/freqcd
+PROGRAM=$(readlink -f "$0")
 
 # Get root directory of installed library, where postinstall script is located
 ENTRYPOINT=$(python3 -c "import importlib.util; print(importlib.util.find_spec('fpfind').origin)")
-INSTALL_ROOT=$(dirname "$(readlink -f ${ENTRYPOINT})")
+INSTALL_ROOT=$(dirname "$(readlink -f "${ENTRYPOINT}")")
 
 # Keep a record of program path, in case one desires a manual recompilation;
 # will be created in-situ only in an editable installation.
-rm -f ${INSTALL_ROOT}/freqcd_path \
-    && echo "${PROGRAM}" > ${INSTALL_ROOT}/freqcd_path
+rm -f "${INSTALL_ROOT}/freqcd_path" \
+    && echo "${PROGRAM}" > "${INSTALL_ROOT}/freqcd_path"
 
-# Trigger post-install compilation and write directly to target
-cd ${INSTALL_ROOT} && ./_postinstall ${PROGRAM} \
-    || { echo "'freqcd.c' failed to compile... not running."; exit 1; }
+# Trigger post-install compilation and write directly to target,
+# from a subshell so that relative paths in the arguments remain valid
+(cd "${INSTALL_ROOT}" && ./_postinstall "${PROGRAM}") \
+    || { echo "'freqcd.c' failed to compile... not running." >&2; exit 1; }
 
 # Pass arguments and directly execute
 exec "${PROGRAM}" "$@"
@@ -56,8 +57,7 @@ exec "${PROGRAM}" "$@"
 #    python3 -m pip show ${LIBNAME} | grep 'Location' | awk -F ': ' '{print $2}'
 #
 # Instead, we rely on the fact that this script will be triggered by 'sh',
-# with the desired path supplied as an argument. Extracting the path is thus
-# a simple matter of a 'ps' + 'awk' hack.
+# with the desired path supplied as an argument, i.e. '$0'.
 #
 # A small side-note, use of '$PPID' to extract the parent path will not work,
 # which may end up deferring to the shell emulator's process instead.
-- 
2.43.0


From 287d3488267f8d2c82501ba5e1eb61a0fdc3acf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:36 +0000
Subject: [PATCH 34/35] fix: failed or interrupted compilation of freqcd must
 not leave a broken program

---
 src/fpfind/_postinstall | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/_postinstall b/src/fpfind/_postinstall
index 3d38182..40532e0 100755
--- a/src/fpfind/_postinstall
+++ b/src/fpfind/_postinstall
@@ -2,4 +2,6 @@
 # Performs post-installation compilation of freqcd. Do not modify.
 TARGET=freqcd
 if [ ! -z "$1" ]; then TARGET="$1"; fi
-gcc -o "${TARGET}" freqcd.c lib/getopt.c
+# Replace target only with a complete binary, since it may be called meanwhile
+gcc -o "${TARGET}.$$" freqcd.c lib/getopt.c && mv -f "${TARGET}.$$" "${TARGET}" \
+    || { rm -f "${TARGET}.$$"; exit 1; }
-- 
2.43.0


From 92d4b2aaf6c15b62c2d9df0ba16019e01e9b1805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:10 +0000
Subject: [PATCH 35/35] fix: freqcd must not ignore options silently

An unknown option or an option without its argument was skipped, and all
options after a word that is no option (or after one beginning with '--')
were left out, so that events were passed on uncorrected with status 0.
---
 src/fpfind/freqcd.c     | 5 +++++
 src/fpfind/lib/getopt.c | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index b5a0a10..dd4213a 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -119,6 +119,7 @@ char *errormessage[] = {
     "Freq correction value not newline terminated",
     "Unable to allocate memory to freqbuffer",
     "Output stream is also the input stream source",
+    "Unknown option, missing argument or unexpected argument", /* 15 */
 };
 int emsg(int code) {
     fprintf(stderr, "%s\n", errormessage[code]);
@@ -208,8 +209,12 @@ int main(int argc, char *argv[]) {
         case 'h':
             usage(); exit(1);
             break;
+        default:
+            return -emsg(15);  // or events will be corrected wrongly
         }
     }
+    // options following an unexpected argument would be ignored
+    if (optind < argc) return -emsg(15);
 
     /* check specified frequency correction is within-bounds */
     // needs to be done after argument reading for position-agnostic '-f'
diff --git a/src/fpfind/lib/getopt.c b/src/fpfind/lib/getopt.c
index d5ca0fd..0c3e7d4 100644
--- a/src/fpfind/lib/getopt.c
+++ b/src/fpfind/lib/getopt.c
@@ -61,7 +61,7 @@ int getopt(int nargc, char * const nargv[], const char *ostr)
       place = EMSG;
       return (-1);
     }
-    if (place[1] && *++place == '-') {      /* found "--" */
+    if (place[1] && *++place == '-' && !place[1]) { /* found "--" */
       ++optind;
       place = EMSG;
       return (-1);
-- 
2.43.0

