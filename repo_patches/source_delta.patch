From 333e97b7ad3ee396faa2a8146a93e4c8c4e3c06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:47 +0000
Subject: [PATCH 1/5] fix: a zero-initialised timer instance is not running

ST hosts create function block instances as zeroed memory. The zero bit
pattern of Option<Instant> is Some(0), so a fresh timer counted as started
at clock zero: TON switched on at once, TP never started its first pulse.
---
 src/timers.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/timers.rs b/src/timers.rs
index 1661c8d..676c42d 100644
--- a/src/timers.rs
+++ b/src/timers.rs
@@ -20,6 +20,9 @@ pub struct TimerParams {
     output: bool,
     elapsed_time: Time,
     input_edge: Signal,
+    // Instances declared in ST start out as all-zero memory. The all-zero bit pattern of
+    // `Option<Instant>` is not `None`, so it cannot tell whether the timer was started.
+    running: bool,
     start_time: Option<Instant>,
 }
 
@@ -28,15 +31,17 @@ impl TimerParams {
     /// It does not take into consideration the preset/range for the timer
     /// Only if a start time has been set.
     fn is_running(&self) -> bool {
-        self.start_time.is_some()
+        self.running
     }
 
     fn start(&mut self) {
         self.start_time = Some(Instant::now());
+        self.running = true;
         self.set_elapsed_time(0);
     }
 
     fn reset(&mut self) {
+        self.running = false;
         self.start_time = None;
         self.set_elapsed_time(0);
     }
-- 
2.43.0


From c229c30d43e2dc2011f67a96e579b9ddb30d56ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:05 +0000
Subject: [PATCH 2/5] fix: TP no longer panics while idle or misses pulses

An evaluation without a running pulse and without a rising edge hit an
unreachable!() and aborted. A pulse whose input fell before the preset
elapsed was never reset, so later rising edges were ignored, and the
evaluation after the reset panicked.
---
 src/timers.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/timers.rs b/src/timers.rs
index 676c42d..d3f8214 100644
--- a/src/timers.rs
+++ b/src/timers.rs
@@ -93,8 +93,12 @@ pub extern "C" fn TP(timer: &mut TimerParams) {
         // If time elapsed within range
         if timer.is_in_preset_range() {
             true
+        } else if timer.input_rising_edge() {
+            // The pulse is over, a new rising edge starts the next one
+            timer.start();
+            true
         } else {
-            if timer.input_falling_edge() {
+            if !timer.input {
                 timer.reset()
             }
             false
@@ -103,7 +107,8 @@ pub extern "C" fn TP(timer: &mut TimerParams) {
         timer.start();
         true
     } else {
-        unreachable!("We should not get here, if we do write the failing test for it.")
+        // Idle, nothing triggered the timer
+        false
     };
     timer.set_output(output);
     timer.input_edge.set(timer.input);
-- 
2.43.0


From 9a8dd3ec048dfb0425a9b726bba4323a63dd0d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:23 +0000
Subject: [PATCH 3/5] fix: derive a timer's Q and ET from one clock reading

ET and Q were computed from two readings of the clock. When the preset
elapsed between them, Q reported the timer as expired while ET was still
short of the preset.
---
 src/timers.rs | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/src/timers.rs b/src/timers.rs
index d3f8214..ff553c5 100644
--- a/src/timers.rs
+++ b/src/timers.rs
@@ -50,23 +50,19 @@ impl TimerParams {
         self.elapsed_time = duration;
     }
 
-    /// Sets the elapsed time to either the preset time or the real elapsed time, whatever is smaller
-    fn update_elapsed_time(&mut self) {
-        if self.is_running() {
-            self.set_elapsed_time(std::cmp::min(
-                self.preset_time,
-                self.get_run_time()
-                    .expect("Timer should be running")
-                    .as_nanos() as i64,
-            ));
+    /// Sets the elapsed time to either the preset time or the real elapsed time, whatever is smaller.
+    /// Returns true if the preset time has not been exceeded.
+    /// Both are derived from a single clock reading, so that they cannot contradict each other.
+    fn update_elapsed_time(&mut self) -> bool {
+        match self.get_run_time() {
+            Some(run_time) => {
+                self.set_elapsed_time(std::cmp::min(self.preset_time, run_time.as_nanos() as i64));
+                run_time <= Duration::from_nanos(self.preset_time as u64)
+            }
+            None => false,
         }
     }
 
-    fn is_in_preset_range(&self) -> bool {
-        let duration = Duration::from_nanos(self.preset_time as u64);
-        self.get_run_time().map_or(false, |it| it <= duration)
-    }
-
     fn get_run_time(&self) -> Option<Duration> {
         self.start_time.map(|it| it.elapsed())
     }
@@ -89,9 +85,8 @@ impl TimerParams {
 pub extern "C" fn TP(timer: &mut TimerParams) {
     //If timer is active (start time set)
     let output = if timer.is_running() {
-        timer.update_elapsed_time();
         // If time elapsed within range
-        if timer.is_in_preset_range() {
+        if timer.update_elapsed_time() {
             true
         } else if timer.input_rising_edge() {
             // The pulse is over, a new rising edge starts the next one
@@ -121,8 +116,7 @@ pub extern "C" fn TON(timer: &mut TimerParams) {
         //Timer was strarted at some point
         if timer.is_running() {
             //Timer is still running
-            timer.update_elapsed_time();
-            !timer.is_in_preset_range()
+            !timer.update_elapsed_time()
             //Timer stopped, but the input is new
         } else if timer.input_rising_edge() {
             timer.start();
@@ -152,8 +146,7 @@ pub extern "C" fn TOF(timer: &mut TimerParams) {
         timer.start();
         true
     } else if timer.is_running() {
-        timer.update_elapsed_time();
-        timer.is_in_preset_range()
+        timer.update_elapsed_time()
     } else {
         false
     };
-- 
2.43.0


From e6ceeb584d82b803abfe6a133a02d11d80cbd47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:26 +0000
Subject: [PATCH 4/5] fix: a negative timer preset counts as elapsed

It was cast to u64, which made it a preset of centuries: TP and TOF stayed
on and TON off for good, with a negative ET.
---
 src/timers.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/timers.rs b/src/timers.rs
index ff553c5..f7e2f91 100644
--- a/src/timers.rs
+++ b/src/timers.rs
@@ -56,8 +56,10 @@ impl TimerParams {
     fn update_elapsed_time(&mut self) -> bool {
         match self.get_run_time() {
             Some(run_time) => {
-                self.set_elapsed_time(std::cmp::min(self.preset_time, run_time.as_nanos() as i64));
-                run_time <= Duration::from_nanos(self.preset_time as u64)
+                // A negative preset has already elapsed
+                let preset_time = std::cmp::max(self.preset_time, 0);
+                self.set_elapsed_time(std::cmp::min(preset_time, run_time.as_nanos() as i64));
+                run_time <= Duration::from_nanos(preset_time as u64)
             }
             None => false,
         }
-- 
2.43.0


From ae3be5ab2372bcbb11c99f8eea7ae7ffae007812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:05 +0000
Subject: [PATCH 5/5] fix: terminate every string written to a caller's buffer

The conversions to STRING, STRING_TO_WSTRING and CONCAT without arguments
relied on the destination being zeroed. Written into a buffer that held a
longer string, or a partial one, their result kept its tail.
---
 src/extra_functions.rs   | 24 +++++++++++++-----------
 src/string_conversion.rs |  1 +
 src/string_functions.rs  |  2 ++
 3 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/extra_functions.rs b/src/extra_functions.rs
index 441fe5c..fe6afcd 100644
--- a/src/extra_functions.rs
+++ b/src/extra_functions.rs
@@ -24,7 +24,7 @@ const DEFAULT_STRING_LEN: usize = 81;
 pub unsafe extern "C" fn BYTE_TO_STRING_EXT(input: u8, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{input}").unwrap();
+    write!(&mut *buf, "{input}\0").unwrap();
 
     0
 }
@@ -36,7 +36,7 @@ pub unsafe extern "C" fn BYTE_TO_STRING_EXT(input: u8, dest: *mut u8) -> i32 {
 pub unsafe extern "C" fn LWORD_TO_STRING_EXT(input: u64, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{input}").unwrap();
+    write!(&mut *buf, "{input}\0").unwrap();
 
     0
 }
@@ -47,7 +47,7 @@ pub unsafe extern "C" fn LWORD_TO_STRING_EXT(input: u64, dest: *mut u8) -> i32 {
 #[no_mangle]
 pub unsafe extern "C" fn LINT_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
-    write!(&mut *buf, "{input}").unwrap();
+    write!(&mut *buf, "{input}\0").unwrap();
 
     0
 }
@@ -60,9 +60,9 @@ pub unsafe extern "C" fn LREAL_TO_STRING_EXT(input: f64, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
     // double: 52 bits are used for the mantissa (about 16 decimal digits)
     if input.floor() < 1e14 {
-        write!(&mut *buf, "{input:.6}").unwrap()
+        write!(&mut *buf, "{input:.6}\0").unwrap()
     } else {
-        write!(&mut *buf, "{input:.6e}").unwrap()
+        write!(&mut *buf, "{input:.6e}\0").unwrap()
     }
 
     0
@@ -78,9 +78,9 @@ pub unsafe extern "C" fn REAL_TO_STRING_EXT(input: f64, dest: *mut u8) -> i32 {
 
     // TODO: discuss when scientific notation should be displayed
     if input.floor() < 1e6 {
-        write!(&mut *buf, "{input:.6}").unwrap()
+        write!(&mut *buf, "{input:.6}\0").unwrap()
     } else {
-        write!(&mut *buf, "{input:.6e}").unwrap()
+        write!(&mut *buf, "{input:.6e}\0").unwrap()
     }
 
     0
@@ -173,10 +173,12 @@ pub extern "C" fn TIME() -> i64 {
 #[no_mangle]
 pub unsafe extern "C" fn TIME_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let mut dest = dest;
+    // a time of zero has no literals
+    *dest = 0;
     let literals = parse_timestamp(input);
     literals.iter().filter(|&it| it.0 != 0).for_each(|it| {
         let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
-        write!(&mut *buf, "{}{}", it.0, it.1).unwrap();
+        write!(&mut *buf, "{}{}\0", it.0, it.1).unwrap();
         let idx = buf.iter().position(|&c| c == 0).unwrap();
         dest = dest.add(idx);
     });
@@ -218,7 +220,7 @@ pub unsafe extern "C" fn DT_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let time = datetime.time().to_string();
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{date}-{time}").unwrap();
+    write!(&mut *buf, "{date}-{time}\0").unwrap();
 
     0
 }
@@ -232,7 +234,7 @@ pub unsafe extern "C" fn DATE_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let date = datetime.to_string();
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{date}").unwrap();
+    write!(&mut *buf, "{date}\0").unwrap();
 
     0
 }
@@ -246,7 +248,7 @@ pub unsafe extern "C" fn TOD_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let time = datetime.time().to_string();
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{time}").unwrap();
+    write!(&mut *buf, "{time}\0").unwrap();
 
     0
 }
diff --git a/src/string_conversion.rs b/src/string_conversion.rs
index 2b18a2e..3a002fd 100644
--- a/src/string_conversion.rs
+++ b/src/string_conversion.rs
@@ -39,6 +39,7 @@ pub unsafe extern "C" fn STRING_TO_WSTRING_EXT(src: *const u8, dest: *mut u16) -
             dest = dest.add(1);
         }
     }
+    *dest = 0;
 
     0
 }
diff --git a/src/string_functions.rs b/src/string_functions.rs
index dfbb925..3684438 100644
--- a/src/string_functions.rs
+++ b/src/string_functions.rs
@@ -715,6 +715,7 @@ pub unsafe extern "C" fn CONCAT_EXT__STRING(
         EncodedCharsIter::decode(*argv).encode(&mut dest);
         argv = argv.add(1);
     }
+    *dest = 0;
 
     0
 }
@@ -763,6 +764,7 @@ pub unsafe extern "C" fn CONCAT_EXT__WSTRING(
         EncodedCharsIter::decode(*argv).encode(&mut dest);
         argv = argv.add(1);
     }
+    *dest = 0;
 
     0
 }
-- 
2.43.0

