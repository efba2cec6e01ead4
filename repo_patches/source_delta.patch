From 4918bfd286a71555f1e6472a260f90d5844dc9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 01/26] fix: octave conversion rejects the value just past the
 top instead of panicking

---
 src/octave.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/octave.rs b/src/octave.rs
index de23210..46c37ed 100644
--- a/src/octave.rs
+++ b/src/octave.rs
@@ -35,11 +35,14 @@ impl Octave {
     pub const BIAS_VALUE: i32 = 2;
 
     pub const fn value_of(value: i32) -> Result<Octave, OctaveError> {
-        Self::from_score_offset(value + Self::BIAS_VALUE)
+        match value.checked_add(Self::BIAS_VALUE) {
+            Some(idx) => Self::from_score_offset(idx),
+            None => Err(OctaveError::InvalidValue(value)),
+        }
     }
 
     pub const fn from_score_offset(idx: i32) -> Result<Octave, OctaveError> {
-        if idx < 0 || Self::ALL.len() < (idx as usize) {
+        if idx < 0 || Self::ALL.len() <= (idx as usize) {
             Err(OctaveError::InvalidValue(idx))
         } else {
             Ok(Self::ALL[idx as usize])
-- 
2.43.0


From f0e1006228d5de4866e065e29179160e38f04429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 02/26] fix: moving a pitch by an extreme delta reports an
 error instead of overflowing

---
 src/pitch.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pitch.rs b/src/pitch.rs
index 62b2fcd..a1cda0f 100644
--- a/src/pitch.rs
+++ b/src/pitch.rs
@@ -162,7 +162,7 @@ impl Pitch {
     }
 
     pub fn with_score_offset_delta(self, score_offset_delta: i32) -> Result<Self, PitchError> {
-        let score_offset = self.score_offset as i32 + score_offset_delta;
+        let score_offset = (self.score_offset as i32).saturating_add(score_offset_delta);
         if score_offset < MIN_SCORE_OFFSET || MAX_SCORE_OFFSET < score_offset {
             return Err(PitchError::InvalidScoreOffset(score_offset));
         }
-- 
2.43.0


From eec66268d4b5dbc0f89d2078af15d8d7b6ac8d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 03/26] fix: trimmer totals are computed in 32 bits

---
 src/trimmer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/trimmer.rs b/src/trimmer.rs
index c3b5da5..b27bc99 100644
--- a/src/trimmer.rs
+++ b/src/trimmer.rs
@@ -44,14 +44,14 @@ impl Trimmer {
     pub const fn from_array(values: [i16; 4]) -> Self {
         Self {
             values: values,
-            sum: (values[0] + values[1] + values[2] + values[3]) as i32,
+            sum: values[0] as i32 + values[1] as i32 + values[2] as i32 + values[3] as i32,
         }
     }
 
     pub fn from_vec(values: &Vec<i16>) -> Self {
         Self {
             values: [values[0], values[1], values[2], values[3]],
-            sum: (values[0] + values[1] + values[2] + values[3]) as i32,
+            sum: values[0] as i32 + values[1] as i32 + values[2] as i32 + values[3] as i32,
         }
     }
 
@@ -83,7 +83,7 @@ impl Trimmer {
 
     pub fn added(mut self, mut tick: i32) -> Self {
         for i in 0..4 {
-            let t: i32 = self.values[i] as i32 + tick as i32;
+            let t: i32 = (self.values[i] as i32).saturating_add(tick);
             if (i16::MAX as i32) < t {
                 tick = t - i16::MAX as i32;
                 self.values[i] = i16::MAX;
-- 
2.43.0


From e92bb5e76e1cb71f7dbb2e6c569617eaf3527d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 04/26] fix: the total of a rate trimmer is that of the
 percentages it stores

---
 src/trimmer.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/trimmer.rs b/src/trimmer.rs
index b27bc99..4ba772b 100644
--- a/src/trimmer.rs
+++ b/src/trimmer.rs
@@ -157,10 +157,9 @@ impl RateTrimmer {
     };
 
     pub fn new(rate0: f32, rate1: f32, rate2: f32, rate3: f32) -> RateTrimmer {
-        RateTrimmer {
-            values: [PercentU16::from(rate0), PercentU16::from(rate1), PercentU16::from(rate2), PercentU16::from(rate3)],
-            sum: PercentU16::from(rate0 * rate1 * rate2 * rate3),
-        }
+        Self::from_array(
+            [PercentU16::from(rate0), PercentU16::from(rate1), PercentU16::from(rate2), PercentU16::from(rate3)]
+        )
     }
 
     pub fn from_array(values: [PercentU16; 4]) -> Self {
-- 
2.43.0


From 3bb6374344c257fdcc4e2f4b5cbdb038706f3703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 05/26] fix: dragging a tempo below its minimum clamps instead
 of wrapping to the maximum

---
 src/tempo.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tempo.rs b/src/tempo.rs
index bf1412d..0144ab4 100644
--- a/src/tempo.rs
+++ b/src/tempo.rs
@@ -100,7 +100,10 @@ impl Tempo {
     pub fn drag(&self, tick_delta: i32, tempo_delta: i32) -> Self {
         Self {
              start_tick: (self.start_tick as i64 + tick_delta as i64) as u32,
-             value: TempoValue::safe_new((self.value.as_u16() as i32 + tempo_delta) as u16),
+             value: TempoValue::new(
+                (self.value.as_u16() as i32).saturating_add(tempo_delta)
+                    .clamp(MIN_TEMPO_VALUE as i32, MAX_TEMPO_VALUE as i32) as u16
+             ),
              ..*self
         }
     }
-- 
2.43.0


From 1e85293030510e15a2ba50f27cf7224a4eb8bb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 06/26] fix: repeat mark compatibility does not depend on the
 order marks are added

---
 src/bar.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bar.rs b/src/bar.rs
index 812e7df..14495c7 100644
--- a/src/bar.rs
+++ b/src/bar.rs
@@ -117,7 +117,12 @@ impl RepeatSet {
     );
 
     const DS_DISLIKE: EnumSet<Repeat> = enum_set!(
-        Repeat::Start
+        Repeat::Start | Repeat::Dc
+        | Repeat::Var1 | Repeat::Var2 | Repeat::Var3 | Repeat::Var4
+    );
+
+    const SEGNO_DISLIKE: EnumSet<Repeat> = enum_set!(
+        Repeat::Dc
         | Repeat::Var1 | Repeat::Var2 | Repeat::Var3 | Repeat::Var4
     );
 
@@ -162,7 +167,7 @@ impl RepeatSet {
             Repeat::Dc => self.try_add_repeat(Self::DC_DISLIKE, r),
             Repeat::Fine => self.try_add_repeat(EnumSet::empty(), r),
             Repeat::Ds => self.try_add_repeat(Self::DS_DISLIKE, r),
-            Repeat::Segno => self.try_add_repeat(EnumSet::empty(), r),
+            Repeat::Segno => self.try_add_repeat(Self::SEGNO_DISLIKE, r),
             Repeat::Coda => self.try_add_repeat(EnumSet::empty(), r),
             Repeat::Var1 => self.try_add_repeat(Self::REGION1_DISLIKE, r),
             Repeat::Var2 => self.try_add_repeat(Self::REGION2_DISLIKE, r),
-- 
2.43.0


From 7da9ef4f245ce31e4108314eb5067c746944e067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 07/26] fix: a typed tempo outside 1..=999 is clamped instead
 of panicking or being accepted

---
 src/text_input.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/text_input.rs b/src/text_input.rs
index 5d4d82e..829dcec 100644
--- a/src/text_input.rs
+++ b/src/text_input.rs
@@ -1,6 +1,6 @@
 use std::{num::{ParseFloatError, ParseIntError}, str::FromStr};
 
-use crate::{duration, location::{parse_location, Location}, percent::PercentU16, rhythm, tempo::TempoValue, velocity::Velocity};
+use crate::{duration, location::{parse_location, Location}, percent::PercentU16, rhythm, tempo::{TempoValue, MAX_TEMPO_VALUE, MIN_TEMPO_VALUE}, velocity::Velocity};
 
 #[derive(Debug)]
 pub struct Validated<T>(pub T);
@@ -83,7 +83,9 @@ impl FromStr for Validated<Option<TempoValue>> {
         if s.is_empty() {
             Ok(Validated(None))
         } else {
-            s.parse::<u16>().map(|u| Validated(Some(TempoValue::new(u))))
+            s.parse::<u16>().map(|u| Validated(Some(
+                TempoValue::new(u.clamp(MIN_TEMPO_VALUE, MAX_TEMPO_VALUE))
+            )))
         }
     }
 }
-- 
2.43.0


From 4be0d94915d48d8fa57070b47eb227bccfdda00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 08/26] fix: a location with unparsable numbers is rejected
 instead of panicking

---
 src/location.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/location.rs b/src/location.rs
index 6501c57..99dc98e 100644
--- a/src/location.rs
+++ b/src/location.rs
@@ -25,13 +25,13 @@ impl Display for Location {
 }
 
 
-const LOCATION_PATTERN: once_cell::unsync::Lazy<Regex> = once_cell::unsync::Lazy::new(|| Regex::new(r"^(\d+):(\d+)$").unwrap());
+const LOCATION_PATTERN: once_cell::unsync::Lazy<Regex> = once_cell::unsync::Lazy::new(|| Regex::new(r"^([0-9]+):([0-9]+)$").unwrap());
 pub fn parse_location(s: &str) -> Option<Location> {
-    LOCATION_PATTERN.captures(s).map(|c| {
-        Location {
-            bar_no: c.get(1).unwrap().as_str().parse().unwrap(),
-            offset: c.get(2).unwrap().as_str().parse().unwrap(),
-        }
+    LOCATION_PATTERN.captures(s).and_then(|c| {
+        Some(Location {
+            bar_no: c.get(1)?.as_str().parse().ok()?,
+            offset: c.get(2)?.as_str().parse().ok()?,
+        })
     })
 }
 
-- 
2.43.0


From 7622051bdc854f48cb6d78253ec0077159802dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 09/26] fix: a location with a huge offset reports an overflow
 instead of panicking

---
 src/project.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/project.rs b/src/project.rs
index c90196c..f6a26c9 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -220,7 +220,7 @@ impl ProjectImpl {
         } else {
             if loc.bar_no() <= self.bar_repo.len() {
                 let (tick, _) = self.bar_repo[loc.bar_no() - 1];
-                let sum = (tick as usize) + loc.offset();
+                let sum = (tick as usize).saturating_add(loc.offset());
                 if (u32::MAX as usize) < sum {
                     Err(LocationError::Overflow)
                 } else {
@@ -229,12 +229,12 @@ impl ProjectImpl {
             } else {
                 let tick = match self.last_bar() {
                     None => {
-                        loc.bar_no() * (self.rhythm.tick_len() as usize) + loc.offset()
+                        (loc.bar_no() * (self.rhythm.tick_len() as usize)).saturating_add(loc.offset())
                     },
                     Some((last_bar_no, last_bar)) => {
                         let last_tick = last_bar.start_tick;
                         let tick_len = self.rhythm_at(last_tick).tick_len() as usize;
-                        (loc.bar_no() - last_bar_no - 1) * tick_len + loc.offset() + last_bar.start_tick as usize
+                        ((loc.bar_no() - last_bar_no - 1) * tick_len + last_bar.start_tick as usize).saturating_add(loc.offset())
                     },
                 };
 
-- 
2.43.0


From a0b9f48be6208293b57073130d1ea0cc82d630c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 10/26] fix: notes of a chord stay together when making a
 tuplet

---
 src/tuple.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index e54e080..85b4b2f 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -21,14 +21,14 @@ pub fn tuplize(notes: Vec<Rc<Note>>) -> Vec<Rc<Note>> {
         for e in sorted.iter() {
             match e {
                 TupleElem::None => {},
-                TupleElem::Some { start_tick: _, notes, min_duration: _ } => {
+                TupleElem::Some { start_tick: _, notes, min_duration } => {
                     for n in notes.iter() {
                         let mut note = (**n).clone();
                         note.base_start_tick = (start_tick + (total_tick * u / total_unit)) as u32;
                         note.duration = n.duration.with_denominator(denominator);
-                        u += numerator_unit(note.duration);
                         ret.push(Rc::new(note));
                     }
+                    u += numerator_unit(*min_duration);
                 },
             }
         }
-- 
2.43.0


From 8876bbc4a154bbf6251618dfa1a6bcc29b7867a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 11/26] fix: a selection too large for a tuplet is returned
 unchanged instead of being mangled

---
 src/tuple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index 85b4b2f..2f50389 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -12,7 +12,7 @@ pub fn tuplize(notes: Vec<Rc<Note>>) -> Vec<Rc<Note>> {
         let start_tick = work[0].base_start_tick();
         let (total_tick, total_unit) = total_tick_unit(&sorted);
         let denominator = total_unit / min_unit;
-        if denominator < 2 { return notes; }
+        if denominator < 2 || (Duration::MAX_DENOMINATOR as u32) < denominator { return notes; }
         let total_tick = total_tick / denominator * 2;
         let denominator = Denominator::from_value(denominator as u8).unwrap();
         let mut u = 0;
-- 
2.43.0


From 100efa5b44ede378d07402232894e3a6b683896f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 12/26] fix: deserialising an out-of-range pitch is an error
 instead of a panic

---
 src/pitch.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pitch.rs b/src/pitch.rs
index a1cda0f..9c24ac7 100644
--- a/src/pitch.rs
+++ b/src/pitch.rs
@@ -29,7 +29,7 @@ impl fmt::Display for PitchError {
 }
 
 #[derive(serde::Deserialize, serde::Serialize)]
-#[serde(from = "PitchSerializedForm")]
+#[serde(try_from = "PitchSerializedForm")]
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Builder)]
 #[builder(default)]
 pub struct Pitch {
@@ -49,9 +49,11 @@ impl Default for Pitch {
     }
 }
 
-impl From<PitchSerializedForm> for Pitch {
-    fn from(from: PitchSerializedForm) -> Self {
-        Self::new(from.solfa, from.octave, from.sharp_flat)
+impl TryFrom<PitchSerializedForm> for Pitch {
+    type Error = PitchError;
+
+    fn try_from(from: PitchSerializedForm) -> Result<Self, Self::Error> {
+        Self::value_of(from.solfa, from.octave, from.sharp_flat)
     }
 }
 
-- 
2.43.0


From f771cfb4dab4f0c622ad14271af327485df6c7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 13/26] fix: deserialising an out-of-range channel is an error

---
 src/channel.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/channel.rs b/src/channel.rs
index 9964692..6495d36 100644
--- a/src/channel.rs
+++ b/src/channel.rs
@@ -1,7 +1,23 @@
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from = "SerializedChannel")]
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
 pub struct Channel(u8);
 
+#[derive(serde::Deserialize)]
+struct SerializedChannel(u8);
+
+impl TryFrom<SerializedChannel> for Channel {
+    type Error = &'static str;
+
+    fn try_from(ser: SerializedChannel) -> Result<Self, Self::Error> {
+        if ser.0 < 16 {
+            Ok(Self(ser.0))
+        } else {
+            Err("Channel out of range")
+        }
+    }
+}
+
 impl Channel {
   pub fn new(value: u8) -> Self {
     if value < 16 {
-- 
2.43.0


From dfe66e5f2d9b54b559338ad239d3dda84a81736a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 14/26] fix: deserialising an out-of-range number of dots is an
 error

---
 src/duration.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/duration.rs b/src/duration.rs
index 441e933..c1ce580 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -89,9 +89,25 @@ impl Denominator {
 }
 
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from = "SerializedDots")]
 #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
 pub struct Dots(u8);
 
+#[derive(serde::Deserialize)]
+struct SerializedDots(u8);
+
+impl TryFrom<SerializedDots> for Dots {
+    type Error = &'static str;
+
+    fn try_from(ser: SerializedDots) -> Result<Self, Self::Error> {
+        if ser.0 <= Duration::MAX_DOT {
+            Ok(Self(ser.0))
+        } else {
+            Err("Number of dots out of range")
+        }
+    }
+}
+
 impl Default for Dots {
     fn default() -> Self {
         Self::ZERO
-- 
2.43.0


From 56d998ad5d4ec77227a14a513c8113764f52d652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 15/26] fix: deserialising an out-of-range rhythm numerator is
 an error

---
 src/rhythm.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/rhythm.rs b/src/rhythm.rs
index 9397d99..c71f074 100644
--- a/src/rhythm.rs
+++ b/src/rhythm.rs
@@ -6,9 +6,25 @@ pub const MIN_NUMERATOR: u8 = 1;
 pub const MAX_NUMERATOR: u8 = 99;
 
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from = "SerializedNumerator")]
 #[derive(Debug, Copy, Clone, PartialEq, Eq)]
 pub struct Numerator(u8);
 
+#[derive(serde::Deserialize)]
+struct SerializedNumerator(u8);
+
+impl TryFrom<SerializedNumerator> for Numerator {
+    type Error = &'static str;
+
+    fn try_from(ser: SerializedNumerator) -> Result<Self, Self::Error> {
+        if (MIN_NUMERATOR..=MAX_NUMERATOR).contains(&ser.0) {
+            Ok(Self(ser.0))
+        } else {
+            Err("Rhythm numerator out of range")
+        }
+    }
+}
+
 impl Display for Numerator {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(f, "{}", self.0)
-- 
2.43.0


From c2abda4cb86765d31596678d7723a650638663f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 16/26] fix: deserialising an out-of-range grid is an error

---
 src/grid.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/grid.rs b/src/grid.rs
index 5c9e611..494d61c 100644
--- a/src/grid.rs
+++ b/src/grid.rs
@@ -5,11 +5,27 @@ pub enum GridError {
 }
 
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from = "SerializedGrid")]
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub struct Grid {
     value: u32,
 }
 
+#[derive(serde::Deserialize)]
+struct SerializedGrid { value: u32 }
+
+impl TryFrom<SerializedGrid> for Grid {
+    type Error = &'static str;
+
+    fn try_from(ser: SerializedGrid) -> Result<Self, Self::Error> {
+        if ser.value != 0 {
+            Ok(Self { value: ser.value })
+        } else {
+            Err("Grid out of range")
+        }
+    }
+}
+
 impl Grid {
     pub fn value_of(s: &str) -> Result<Self, GridError> {
         s.parse::<u32>()
-- 
2.43.0


From 4d3be8a6a0b8ff6cceb0a99c43baf114ad156b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 17/26] fix: deserialising an out-of-range percentage is an
 error

---
 src/percent.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/percent.rs b/src/percent.rs
index a8487b2..091951c 100644
--- a/src/percent.rs
+++ b/src/percent.rs
@@ -2,11 +2,27 @@ use crate::can_apply::CanApply;
 
 // 0.0% - 200.0%
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from = "SerializedPercentU16")]
 #[derive(Debug, Clone, Copy, Eq)]
 pub struct PercentU16 {
     value: u16,
 }
 
+#[derive(serde::Deserialize)]
+struct SerializedPercentU16 { value: u16 }
+
+impl TryFrom<SerializedPercentU16> for PercentU16 {
+    type Error = &'static str;
+
+    fn try_from(ser: SerializedPercentU16) -> Result<Self, Self::Error> {
+        if ser.value <= MAX_VALUE as u16 {
+            Ok(Self { value: ser.value })
+        } else {
+            Err("Percentage out of range")
+        }
+    }
+}
+
 // 0 - 200%
 const MAX_VALUE: i32 = 2000;
 const MAX_F32_VALUE: f32 = 2.0;
-- 
2.43.0


From d1fa3b01acc889e809ff2e9ac4d9b86bc624d6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 18/26] fix: deserialising an out-of-range key is an error

---
 src/key.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/key.rs b/src/key.rs
index a4dbe23..6bbdb67 100644
--- a/src/key.rs
+++ b/src/key.rs
@@ -5,9 +5,25 @@ use once_cell::unsync::Lazy;
 use crate::solfa::Solfa;
 
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from = "SerializedKey")]
 #[derive(Debug, PartialEq, Eq, Copy, Clone, Hash)]
 pub struct Key(i8);
 
+#[derive(serde::Deserialize)]
+struct SerializedKey(i8);
+
+impl TryFrom<SerializedKey> for Key {
+    type Error = &'static str;
+
+    fn try_from(ser: SerializedKey) -> Result<Self, Self::Error> {
+        if -7 <= ser.0 && ser.0 <= 7 {
+            Ok(Self(ser.0))
+        } else {
+            Err("Key out of range")
+        }
+    }
+}
+
 impl Key {
     pub const NONE: Key = Key(0);
     pub const SHARP_1: Key = Key(1);
-- 
2.43.0


From 3950f661d5ed2d4d7e5bc2848eb62d0f2f3809e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:32 +0000
Subject: [PATCH 19/26] fix: adding an extreme number of dots is an error
 instead of an overflow

---
 src/note.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/note.rs b/src/note.rs
index a247256..a366708 100644
--- a/src/note.rs
+++ b/src/note.rs
@@ -148,7 +148,7 @@ impl Note {
     }
 
     pub fn add_dots(&self, dots_to_add: i32) -> Result<Self, InvalidDot> {
-        let new_dots = self.duration.dots.value() as i32 + dots_to_add;
+        let new_dots = (self.duration.dots.value() as i32).saturating_add(dots_to_add);
         if new_dots < 0 || (Duration::MAX_DOT as i32) < new_dots {
             Err(InvalidDot(new_dots))
         } else {
-- 
2.43.0


From a46fb1fd792344891dfeb19d2bd164e39dd87d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:20 +0000
Subject: [PATCH 20/26] hook: Kani contracts and their specification functions,
 under cfg(kani)/cfg(klavier_verif)

---
 src/bar.rs       |   7 +
 src/contracts.rs | 491 +++++++++++++++++++++++++++++++++++++++++++++++
 src/ctrl_chg.rs  |   2 +
 src/duration.rs  |   4 +
 src/lib.rs       |   6 +-
 src/note.rs      |   5 +
 src/octave.rs    |   2 +
 src/pitch.rs     |   9 +
 src/play_iter.rs |   1 +
 src/rhythm.rs    |   2 +
 src/solfa.rs     |   1 +
 src/tempo.rs     |   6 +
 src/trimmer.rs   |   3 +
 src/velocity.rs  |   1 +
 14 files changed, 539 insertions(+), 1 deletion(-)
 create mode 100644 src/contracts.rs

diff --git a/src/bar.rs b/src/bar.rs
index 14495c7..9617654 100644
--- a/src/bar.rs
+++ b/src/bar.rs
@@ -16,6 +16,7 @@ pub enum VarIndexError {
 }
 
 impl VarIndex {
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::var_index_from(value as i32, r)))]
     pub fn from_value(value: u8) -> Result<VarIndex, VarIndexError> {
         match value {
             1 => Ok(VarIndex::VI1),
@@ -160,6 +161,7 @@ impl RepeatSet {
         }
     }
 
+    #[cfg_attr(kani, kani::ensures(|result| crate::contracts::try_added(self, r, result)))]
     pub fn try_add(self, r: Repeat) -> Result<Self, EnumSet<Repeat>> {
         match r {
             Repeat::Start => self.try_add_repeat(Self::START_DISLIKE, r),
@@ -176,12 +178,14 @@ impl RepeatSet {
         }
     }
 
+    #[cfg_attr(kani, kani::ensures(|result| crate::contracts::removed(self, result, |m| m == r)))]
     pub fn remove(self, r: Repeat) -> Self {
         let mut copy = self.clone();
         copy.value.remove(r);
         copy
     }
 
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::region_index(self, r)))]
     pub fn region_index(self) -> Option<VarIndex> {
         if self.contains(Repeat::Var1) { Some(VarIndex::VI1) }
         else if self.contains(Repeat::Var2) { Some(VarIndex::VI2) }
@@ -190,6 +194,7 @@ impl RepeatSet {
         else { None }
     }
 
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::removed(self, r, crate::contracts::is_variation)))]
     pub fn remove_resions(self) -> Self {
         let mut copy = self.clone();
         copy.value.remove(Repeat::Var1);
@@ -253,6 +258,8 @@ impl Bar {
         }
     }
 
+    #[cfg_attr(kani, kani::requires(self.start_tick <= crate::contracts::MAX_TICK))]
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::tick_added(self.start_tick, tick_delta, r, |m, t| crate::contracts::bar_at(self, m, t))))]
     pub fn with_tick_added(&self, tick_delta: i32) -> Result<Self, TickError> {
         let tick = (self.start_tick as i64) + tick_delta as i64;
         if tick < 0 {
diff --git a/src/contracts.rs b/src/contracts.rs
new file mode 100644
index 0000000..cdb201f
--- /dev/null
+++ b/src/contracts.rs
@@ -0,0 +1,491 @@
+//! Specification functions used by the verification contracts (`cfg_attr(kani, ...)`) of this crate.
+//!
+//! They restate the documented behaviour independently of the implementation and use only the public API.
+//! Compiled only for verification builds (`cfg(kani)` or `cfg(klavier_verif)`).
+use enumset::EnumSet;
+
+use crate::bar::{Bar, Repeat, RepeatSet, VarIndex, VarIndexError};
+use crate::ctrl_chg::CtrlChg;
+use crate::duration::{self, Dots, Duration};
+use crate::key::Key;
+use crate::note::{InvalidDot, Note, TickError};
+use crate::octave::{Octave, OctaveError};
+use crate::percent::PercentU16;
+use crate::pitch::{Pitch, PitchError};
+use crate::play_iter::PlayIter;
+use crate::rhythm::{self, Rhythm, RhythmError};
+use crate::sharp_flat::SharpFlat;
+use crate::solfa::Solfa;
+use crate::tempo::{Tempo, TempoError, TempoValue};
+use crate::trimmer::{RateTrimmer, Trimmer};
+use crate::velocity::Velocity;
+
+// ---- C01, C02: pitch ----
+
+pub fn name_index(s: Solfa) -> i32 {
+    match s {
+        Solfa::C => 0, Solfa::D => 1, Solfa::E => 2, Solfa::F => 3, Solfa::G => 4, Solfa::A => 5, Solfa::B => 6,
+    }
+}
+
+pub fn name_semitones(s: Solfa) -> i32 {
+    match s {
+        Solfa::C => 0, Solfa::D => 2, Solfa::E => 4, Solfa::F => 5, Solfa::G => 7, Solfa::A => 9, Solfa::B => 11,
+    }
+}
+
+/// Counted from the lowest octave.
+pub fn octave_index(o: Octave) -> i32 {
+    match o {
+        Octave::OctM2 => 0, Octave::OctM1 => 1, Octave::Oct0 => 2, Octave::Oct1 => 3, Octave::Oct2 => 4,
+        Octave::Oct3 => 5, Octave::Oct4 => 6, Octave::Oct5 => 7, Octave::Oct6 => 8, Octave::Oct7 => 9, Octave::Oct8 => 10,
+    }
+}
+
+pub fn accidental(a: SharpFlat) -> i32 {
+    match a {
+        SharpFlat::Sharp => 1, SharpFlat::DoubleSharp => 2, SharpFlat::Flat => -1, SharpFlat::DoubleFlat => -2,
+        SharpFlat::Natural => 0, SharpFlat::Null => 0,
+    }
+}
+
+pub fn midi(s: Solfa, o: Octave, a: SharpFlat) -> i32 {
+    12 * octave_index(o) + name_semitones(s) + accidental(a)
+}
+
+pub fn in_range(s: Solfa, o: Octave, a: SharpFlat) -> bool {
+    0 <= midi(s, o, a) && midi(s, o, a) <= 127
+}
+
+/// `p` is the well-formed pitch spelled (s, o, a).
+pub fn is_pitch(p: Pitch, s: Solfa, o: Octave, a: SharpFlat) -> bool {
+    p.solfa() == s && p.octave() == o && p.sharp_flat() == a
+        && p.value() as i32 == midi(s, o, a)
+        && p.score_offset() as i32 == 7 * octave_index(o) + name_index(s)
+}
+
+pub fn wf_pitch(p: Pitch) -> bool {
+    is_pitch(p, p.solfa(), p.octave(), p.sharp_flat()) && in_range(p.solfa(), p.octave(), p.sharp_flat())
+}
+
+pub fn pitch_value_of(s: Solfa, o: Octave, a: SharpFlat, r: &Result<Pitch, PitchError>) -> bool {
+    let v = midi(s, o, a);
+    match r {
+        Ok(p) => 0 <= v && v <= 127 && is_pitch(*p, s, o, a),
+        Err(PitchError::TooLow(es, eo, ea, ev)) => v < 0 && *es == s && *eo == o && *ea == a && *ev == v,
+        Err(PitchError::TooHigh(es, eo, ea, ev)) => 127 < v && *es == s && *eo == o && *ea == a && *ev == v,
+        Err(_) => false,
+    }
+}
+
+pub fn octave_from_index(idx: i32, r: &Result<Octave, OctaveError>) -> bool {
+    match r {
+        Ok(o) => octave_index(*o) == idx,
+        Err(_) => idx < 0 || 10 < idx,
+    }
+}
+
+pub fn octave_value_of(value: i32, r: &Result<Octave, OctaveError>) -> bool {
+    match r {
+        Ok(o) => octave_index(*o) - 2 == value,
+        Err(_) => value < -2 || 8 < value,
+    }
+}
+
+pub fn solfa_from_index(idx: i32, r: &Solfa) -> bool {
+    name_index(*r) == if idx < 0 { 0 } else if 6 < idx { 6 } else { idx }
+}
+
+/// `r` is `p` moved to staff position `pos` with the accidental kept, and fails exactly when it cannot be.
+/// `top` is the highest staff position of the keyboard.
+pub fn pitch_at(p: Pitch, pos: i32, top: i32, r: &Result<Pitch, PitchError>) -> bool {
+    match r {
+        Ok(q) => 0 <= pos && pos <= top && q.score_offset() as i32 == pos && q.sharp_flat() == p.sharp_flat() && wf_pitch(*q),
+        Err(_) => pos < 0 || top < pos || {
+            let pos = pos as u8;
+            let v = 12 * (pos / 7) as i32 + [0, 2, 4, 5, 7, 9, 11][(pos % 7) as usize] + accidental(p.sharp_flat());
+            v < 0 || 127 < v
+        },
+    }
+}
+
+pub fn pitch_up(p: Pitch, r: &Result<Pitch, PitchError>) -> bool {
+    pitch_at(p, p.score_offset() as i32 + 1, 76, r)
+}
+
+pub fn pitch_down(p: Pitch, r: &Result<Pitch, PitchError>) -> bool {
+    pitch_at(p, p.score_offset() as i32 - 1, 76, r)
+}
+
+pub fn pitch_delta(p: Pitch, delta: i32, r: &Result<Pitch, PitchError>) -> bool {
+    pitch_at(p, (p.score_offset() as i32).saturating_add(delta), 74, r)
+}
+
+pub fn pitch_from_position(pos: i32, r: &Pitch) -> bool {
+    let pos = if pos < 0 { 0 } else if 74 < pos { 74 } else { pos };
+    r.score_offset() as i32 == pos && r.sharp_flat() == SharpFlat::Null && wf_pitch(*r)
+}
+
+pub fn with_accidental(p: Pitch, a: SharpFlat, r: &Result<Pitch, PitchError>) -> bool {
+    match r {
+        Ok(q) => is_pitch(*q, p.solfa(), p.octave(), a) && in_range(p.solfa(), p.octave(), a),
+        Err(_) => !in_range(p.solfa(), p.octave(), a),
+    }
+}
+
+pub fn toggled_sharp(a: SharpFlat) -> SharpFlat {
+    match a {
+        SharpFlat::Sharp => SharpFlat::DoubleSharp,
+        SharpFlat::DoubleSharp => SharpFlat::Null,
+        SharpFlat::Flat | SharpFlat::DoubleFlat | SharpFlat::Natural | SharpFlat::Null => SharpFlat::Sharp,
+    }
+}
+
+pub fn toggled_flat(a: SharpFlat) -> SharpFlat {
+    match a {
+        SharpFlat::Flat => SharpFlat::DoubleFlat,
+        SharpFlat::DoubleFlat => SharpFlat::Null,
+        SharpFlat::Sharp | SharpFlat::DoubleSharp | SharpFlat::Natural | SharpFlat::Null => SharpFlat::Flat,
+    }
+}
+
+pub fn toggled_natural(a: SharpFlat) -> SharpFlat {
+    if a == SharpFlat::Natural { SharpFlat::Null } else { SharpFlat::Natural }
+}
+
+// ---- C03: key signature ----
+
+/// Accidental the key signature puts on the natural-spelled note `s`.
+pub fn key_accidental(key: Key, s: Solfa) -> SharpFlat {
+    let n = key.offset() as i32;
+    // Position in F C G D A E B.
+    let sharp_order = match s {
+        Solfa::F => 0, Solfa::C => 1, Solfa::G => 2, Solfa::D => 3, Solfa::A => 4, Solfa::E => 5, Solfa::B => 6,
+    };
+    if 0 < n && sharp_order < n { SharpFlat::Sharp }
+    else if n < 0 && 6 - sharp_order < -n { SharpFlat::Flat }
+    else { SharpFlat::Null }
+}
+
+pub fn apply_key(p: Pitch, key: Key, r: &Result<Pitch, PitchError>) -> bool {
+    let a = if p.sharp_flat() == SharpFlat::Null { key_accidental(key, p.solfa()) } else { p.sharp_flat() };
+    with_accidental(p, a, r)
+}
+
+// ---- C04: duration ----
+
+pub fn dots_from_value(value: u8, r: &Option<Dots>) -> bool {
+    match r { Some(d) => value <= 7 && d.value() == value, None => 7 < value }
+}
+
+pub fn tuplet_from_value(value: u8, r: &Option<duration::Denominator>) -> bool {
+    match r { Some(d) => 2 <= value && d.value() == value, None => value < 2 }
+}
+
+pub fn undotted_len(n: duration::Numerator) -> u32 {
+    match n {
+        duration::Numerator::Whole => 960, duration::Numerator::Half => 480, duration::Numerator::Quarter => 240,
+        duration::Numerator::N8th => 120, duration::Numerator::N16th => 60, duration::Numerator::N32nd => 30,
+        duration::Numerator::N64th => 15, duration::Numerator::N128th => 7,
+    }
+}
+
+/// Twice the undotted value minus the value shifted right by the number of dots.
+pub fn dotted_len(n: duration::Numerator, dots: u8) -> u32 {
+    let len = undotted_len(n);
+    2 * len - (len >> dots)
+}
+
+pub fn tick_length(d: Duration, r: &u32) -> bool {
+    let len2 = dotted_len(d.numerator, d.dots.value()) * 2;
+    let den = d.denominator.value() as u32;
+    // *r == len2 / den, stated without dividing.
+    *r <= len2 && *r * den <= len2 && len2 < (*r + 1) * den
+}
+
+pub fn shorter(a: Duration, b: Duration, r: &Duration) -> bool {
+    let (la, lb) = (a.tick_length(), b.tick_length());
+    (*r == a && la <= lb) || (*r == b && lb <= la)
+}
+
+// ---- C05: rhythm ----
+
+pub fn rhythm_value_of(n: u8, d: u8, r: &Result<Rhythm, RhythmError>) -> bool {
+    let n_ok = 1 <= n && n <= 99;
+    let d_ok = d == 2 || d == 4 || d == 8 || d == 16 || d == 32 || d == 64;
+    match r {
+        Ok(rh) => n_ok && d_ok && rh.numerator().value() == n && rh.denominator().value() == d,
+        Err(RhythmError::NumeratorError(v)) => !n_ok && *v == n,
+        Err(RhythmError::DenominatorError(v)) => n_ok && !d_ok && *v == d,
+    }
+}
+
+pub fn bar_len(rh: Rhythm, r: &u32) -> bool {
+    let shift = match rh.denominator() {
+        rhythm::Denominator::D2 => 1, rhythm::Denominator::D4 => 2, rhythm::Denominator::D8 => 3,
+        rhythm::Denominator::D16 => 4, rhythm::Denominator::D32 => 5, rhythm::Denominator::D64 => 6,
+    };
+    *r == ((rh.numerator().value() as u32) * 960) >> shift && 15 <= *r
+}
+
+// ---- C06: trimmer ----
+
+pub fn trimmer_is(t: &Trimmer, v: [i16; 4]) -> bool {
+    t.to_array() == v
+        && t.value(0) == v[0] as i32 && t.value(1) == v[1] as i32 && t.value(2) == v[2] as i32 && t.value(3) == v[3] as i32
+        && t.sum() == v[0] as i32 + v[1] as i32 + v[2] as i32 + v[3] as i32
+}
+
+/// `r` is `before` with `delta` poured into the first value, overflowing into the next ones only when saturated.
+pub fn trimmer_added(before: &Trimmer, delta: i32, r: &Trimmer) -> bool {
+    let lo = i16::MIN as i64;
+    let hi = i16::MAX as i64;
+    let mut rest = delta as i64;
+    let mut want = [0i16; 4];
+    let v = before.to_array();
+    let mut i = 0;
+    while i < 4 {
+        let t = v[i] as i64 + rest;
+        let c = if t < lo { lo } else if hi < t { hi } else { t };
+        want[i] = c as i16;
+        rest = t - c;
+        i += 1;
+    }
+    trimmer_is(r, want)
+}
+
+// ---- C07: percent ----
+
+pub fn percent_from_rate(rate: f32, r: &PercentU16) -> bool {
+    let v =
+        if rate.is_nan() || rate <= 0.0 { 0 }
+        else if 2.0 <= rate { 2000 }
+        else { (rate * 1000.0) as u16 };
+    v <= 2000 && *r == PercentU16::from_value(v)
+}
+
+/// `r` is `value` * `thousandths` / 1000 rounded down, stated without dividing.
+pub fn percent_applied(thousandths: u16, value: u32, r: u32) -> bool {
+    let x = value as u64 * thousandths as u64;
+    r as u64 * 1000 <= x && x < (r as u64 + 1) * 1000
+}
+
+pub fn rate_trimmer_is(t: &RateTrimmer, v: [PercentU16; 4]) -> bool {
+    t.value(0) == v[0] && t.value(1) == v[1] && t.value(2) == v[2] && t.value(3) == v[3]
+        && t.sum() == PercentU16::from(v[0].to_f32() * v[1].to_f32() * v[2].to_f32() * v[3].to_f32())
+}
+
+// ---- C08: note ----
+
+pub const MAX_TICK: u32 = i32::MAX as u32;
+
+pub fn note_start(n: &Note, r: &u32) -> bool {
+    let t = n.base_start_tick as i64 + n.start_tick_trimmer.sum() as i64;
+    *r as i64 == if t < 0 { 0 } else { t }
+}
+
+pub fn note_velocity(n: &Note, r: &Velocity) -> bool {
+    let v = n.base_velocity.as_u8() as i64 + n.velocity_trimmer.sum() as i64;
+    r.as_u8() as i64 == if v < 0 { 0 } else if 127 < v { 127 } else { v }
+}
+
+/// All fields but those masked out are equal. Trimmers are compared by value.
+pub struct Except { pub start: bool, pub pitch: bool, pub duration: bool, pub tie: bool, pub start_trimmer: bool }
+
+impl Except {
+    pub const NOTHING: Except = Except { start: false, pitch: false, duration: false, tie: false, start_trimmer: false };
+    pub const START: Except = Except { start: true, ..Self::NOTHING };
+    pub const PITCH: Except = Except { pitch: true, ..Self::NOTHING };
+    pub const START_PITCH: Except = Except { start: true, pitch: true, ..Self::NOTHING };
+    pub const DURATION: Except = Except { duration: true, ..Self::NOTHING };
+    pub const TIE: Except = Except { tie: true, ..Self::NOTHING };
+    pub const START_TRIMMER: Except = Except { start_trimmer: true, ..Self::NOTHING };
+}
+
+pub fn note_frame(a: &Note, b: &Note, e: Except) -> bool {
+    (e.start || a.base_start_tick == b.base_start_tick)
+        && (e.pitch || a.pitch == b.pitch)
+        && (e.duration || a.duration == b.duration)
+        && (e.tie || (a.tie == b.tie && a.tied == b.tied))
+        && (e.start_trimmer || a.start_tick_trimmer == b.start_tick_trimmer)
+        && a.base_velocity == b.base_velocity
+        && a.duration_trimmer == b.duration_trimmer
+        && a.velocity_trimmer == b.velocity_trimmer
+        && a.channel == b.channel
+}
+
+pub fn note_tick_added(n: &Note, delta: i32, is_trim: bool, r: &Result<Note, TickError>) -> bool {
+    let t = n.base_start_tick as i64 + delta as i64;
+    match r {
+        Err(_) => t < 0,
+        Ok(m) =>
+            if is_trim {
+                0 <= t && note_frame(n, m, Except::START_TRIMMER)
+                    && trimmer_added(&n.start_tick_trimmer, delta, &m.start_tick_trimmer)
+            } else {
+                0 <= t && note_frame(n, m, Except::START) && m.base_start_tick as i64 == t
+            },
+    }
+}
+
+pub fn note_dragged(n: &Note, delta: i32, pitch_delta: i32, r: &Note) -> bool {
+    note_frame(n, r, Except::START_PITCH)
+        && r.base_start_tick as i64 == n.base_start_tick as i64 + delta as i64
+        && r.pitch.score_offset() as i64 == n.pitch.score_offset() as i64 + pitch_delta as i64
+        && r.pitch.sharp_flat() == n.pitch.sharp_flat()
+        && wf_pitch(r.pitch)
+}
+
+pub fn note_dots_added(n: &Note, add: i32, r: &Result<Note, InvalidDot>) -> bool {
+    let dots = n.duration.dots.value() as i64 + add as i64;
+    match r {
+        Err(_) => dots < 0 || 7 < dots,
+        Ok(m) => note_frame(n, m, Except::DURATION)
+            && m.duration.dots.value() as i64 == dots
+            && m.duration.numerator == n.duration.numerator
+            && m.duration.denominator == n.duration.denominator,
+    }
+}
+
+pub fn note_tie_toggled(n: &Note, r: &Note) -> bool {
+    let want = match (n.tie, n.tied) {
+        (false, false) => (true, false),
+        (true, false) => (false, true),
+        (false, true) => (true, true),
+        (true, true) => (false, false),
+    };
+    (r.tie, r.tied) == want && note_frame(n, r, Except::TIE)
+}
+
+/// `r` is `n` with the outcome `p` of a pitch edit.
+pub fn note_repitched(n: &Note, p: &Result<Pitch, PitchError>, r: &Result<Note, PitchError>) -> bool {
+    match (p, r) {
+        (Ok(p), Ok(m)) => m.pitch == *p && note_frame(n, m, Except::PITCH),
+        (Err(_), Err(_)) => true,
+        _ => false,
+    }
+}
+
+// ---- C09: bars, tempos, pedals ----
+
+pub fn tick_added<T>(start: u32, delta: i32, r: &Result<T, TickError>, same_but_at: impl Fn(&T, u32) -> bool) -> bool {
+    let t = start as i64 + delta as i64;
+    match r {
+        Err(_) => t < 0,
+        Ok(m) => 0 <= t && t <= u32::MAX as i64 && same_but_at(m, t as u32),
+    }
+}
+
+pub fn bar_at(b: &Bar, m: &Bar, tick: u32) -> bool {
+    m.start_tick == tick && m.rhythm == b.rhythm && m.key == b.key && m.repeats == b.repeats
+}
+
+pub fn tempo_moved(b: &Tempo, m: &Tempo, tick: u32) -> bool {
+    m.start_tick == tick && m.value == b.value
+}
+
+pub fn ctrl_at(b: &CtrlChg, m: &CtrlChg, tick: u32) -> bool {
+    m.start_tick == tick && m.velocity == b.velocity && m.channel == b.channel
+}
+
+pub fn tempo_dragged(t: &Tempo, tick_delta: i32, tempo_delta: i32, r: &Tempo) -> bool {
+    let v = t.value.value() as i64 + tempo_delta as i64;
+    r.start_tick as i64 == t.start_tick as i64 + tick_delta as i64
+        && r.value.value() as i64 == if v < 1 { 1 } else if 999 < v { 999 } else { v }
+}
+
+pub fn tempo_up(v: TempoValue, r: &Result<TempoValue, TempoError>) -> bool {
+    match r { Ok(u) => v.value() < 999 && u.value() == v.value() + 1, Err(_) => v.value() == 999 }
+}
+
+pub fn tempo_down(v: TempoValue, r: &Result<TempoValue, TempoError>) -> bool {
+    match r { Ok(u) => 1 < v.value() && u.value() == v.value() - 1, Err(_) => v.value() <= 1 }
+}
+
+// ---- C10: bounded quantities ----
+
+pub fn velocity_new(value: u8, r: &Velocity) -> bool {
+    r.as_u8() == if 127 < value { 127 } else { value }
+}
+
+pub fn play_iter_new(iter: u8, r: &PlayIter) -> bool {
+    r.iter() == if iter < 1 { 1 } else if 5 < iter { 5 } else { iter }
+}
+
+pub fn var_index_from(value: i32, r: &Result<VarIndex, VarIndexError>) -> bool {
+    match r { Ok(v) => v.value() as i32 == value && 1 <= value && value <= 4, Err(_) => value < 1 || 4 < value }
+}
+
+// ---- C12: repeat marks ----
+
+pub fn is_variation(r: Repeat) -> bool {
+    matches!(r, Repeat::Var1 | Repeat::Var2 | Repeat::Var3 | Repeat::Var4)
+}
+
+/// The incompatible pairs, one way round.
+fn clash_one_way(a: Repeat, b: Repeat) -> bool {
+    match a {
+        Repeat::Start => matches!(b, Repeat::Dc | Repeat::Ds) || is_variation(b),
+        Repeat::End => is_variation(b),
+        Repeat::Dc => matches!(b, Repeat::Ds | Repeat::Segno),
+        Repeat::Var1 | Repeat::Var2 | Repeat::Var3 | Repeat::Var4 =>
+            matches!(b, Repeat::Dc | Repeat::Ds | Repeat::Segno) || (is_variation(b) && a != b),
+        _ => false,
+    }
+}
+
+pub fn clash(a: Repeat, b: Repeat) -> bool {
+    clash_one_way(a, b) || clash_one_way(b, a)
+}
+
+pub const REPEATS: [Repeat; 11] = [
+    Repeat::Start, Repeat::End, Repeat::Dc, Repeat::Fine, Repeat::Ds, Repeat::Segno, Repeat::Coda,
+    Repeat::Var1, Repeat::Var2, Repeat::Var3, Repeat::Var4,
+];
+
+pub fn try_added(before: RepeatSet, r: Repeat, result: &Result<RepeatSet, EnumSet<Repeat>>) -> bool {
+    let mut any = false;
+    let mut i = 0;
+    while i < 11 {
+        let m = REPEATS[i];
+        let conflicting = before.contains(m) && clash(m, r);
+        any = any || conflicting;
+        let ok = match result {
+            Ok(after) => after.contains(m) == (before.contains(m) || m == r),
+            Err(reported) => reported.contains(m) == conflicting,
+        };
+        if !ok { return false; }
+        i += 1;
+    }
+    any == result.is_err()
+}
+
+pub fn no_clash(s: RepeatSet) -> bool {
+    let mut i = 0;
+    while i < 11 {
+        let mut j = i + 1;
+        while j < 11 {
+            if s.contains(REPEATS[i]) && s.contains(REPEATS[j]) && clash(REPEATS[i], REPEATS[j]) { return false; }
+            j += 1;
+        }
+        i += 1;
+    }
+    true
+}
+
+pub fn removed(before: RepeatSet, after: &RepeatSet, gone: impl Fn(Repeat) -> bool) -> bool {
+    let mut i = 0;
+    while i < 11 {
+        let m = REPEATS[i];
+        if after.contains(m) != (before.contains(m) && !gone(m)) { return false; }
+        i += 1;
+    }
+    true
+}
+
+pub fn region_index(s: RepeatSet, r: &Option<VarIndex>) -> bool {
+    match r {
+        Some(v) => s.contains(REPEATS[6 + v.value() as usize]),
+        None => !s.contains(Repeat::Var1) && !s.contains(Repeat::Var2) && !s.contains(Repeat::Var3) && !s.contains(Repeat::Var4),
+    }
+}
diff --git a/src/ctrl_chg.rs b/src/ctrl_chg.rs
index 2d704ad..06a4c2d 100644
--- a/src/ctrl_chg.rs
+++ b/src/ctrl_chg.rs
@@ -21,6 +21,8 @@ impl CtrlChg {
         }
     }
 
+    #[cfg_attr(kani, kani::requires(self.start_tick <= crate::contracts::MAX_TICK))]
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::tick_added(self.start_tick, tick_delta, r, |m, t| crate::contracts::ctrl_at(self, m, t))))]
     pub fn with_tick_added(&self, tick_delta: i32) -> Result<Self, TickError> {
         let tick = self.start_tick as i64 + tick_delta as i64;
         if tick < 0 {
diff --git a/src/duration.rs b/src/duration.rs
index c1ce580..a92c68b 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -79,6 +79,7 @@ impl Denominator {
         self.0
     }
 
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::tuplet_from_value(value, r)))]
     pub const fn from_value(value: u8) -> Option<Denominator> {
         if value < 2 {
             None
@@ -128,6 +129,7 @@ impl Dots {
         self.0
     }
 
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::dots_from_value(value, r)))]
     pub const fn from_value(value: u8) -> Option<Dots> {
         if 7 < value {
             None
@@ -175,6 +177,7 @@ impl Duration {
         Self { numerator, denominator, dots }
     }
 
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::tick_length(self, r)))]
     pub const fn tick_length(self) -> u32 {
         let numerator = self.numerator.ord();
         let len =
@@ -203,6 +206,7 @@ impl Duration {
         Self::new(self.numerator, self.denominator, dots)
     }
 
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::shorter(self, other, r)))]
     pub fn min(self, other: Self) -> Self {
         if self.tick_length() < other.tick_length() { self } else { other }
     }
diff --git a/src/lib.rs b/src/lib.rs
index 94fe64b..c6ef1c8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+// Verification builds set `kani` or `klavier_verif`; see contracts.rs.
+#![allow(unexpected_cfgs)]
 pub mod octave;
 pub mod sharp_flat;
 pub mod solfa;
@@ -28,4 +30,6 @@ pub mod channel;
 pub mod play_iter;
 pub mod play_start_tick;
 pub mod text_input;
-pub mod exported_project;
\ No newline at end of file
+pub mod exported_project;
+#[cfg(any(kani, klavier_verif))]
+pub mod contracts;
diff --git a/src/note.rs b/src/note.rs
index a366708..a196b27 100644
--- a/src/note.rs
+++ b/src/note.rs
@@ -117,6 +117,8 @@ impl Note {
         }
     }
     
+    #[cfg_attr(kani, kani::requires(self.base_start_tick <= crate::contracts::MAX_TICK))]
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::note_tick_added(self, tick_delta, is_trim, r)))]
     pub fn with_tick_added(&self, tick_delta: i32, is_trim: bool) -> Result<Self, TickError> {
         let tick = self.base_start_tick as i64 + tick_delta as i64;
         if tick < 0 {
@@ -147,6 +149,7 @@ impl Note {
         }
     }
 
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::note_dots_added(self, dots_to_add, r)))]
     pub fn add_dots(&self, dots_to_add: i32) -> Result<Self, InvalidDot> {
         let new_dots = (self.duration.dots.value() as i32).saturating_add(dots_to_add);
         if new_dots < 0 || (Duration::MAX_DOT as i32) < new_dots {
@@ -188,6 +191,7 @@ impl Note {
         })
     }
 
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::note_tie_toggled(self, r)))]
     pub fn toggle_tie(&self) -> Note {
         let mut tie = self.tie;
         let mut tied = self.tied;
@@ -217,6 +221,7 @@ impl Note {
         self.base_velocity
     }
 
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::note_velocity(self, r)))]
     pub fn velocity(&self) -> Velocity {
         let mut v = self.base_velocity.as_u8() as i32;
         v = v + self.velocity_trimmer.sum();
diff --git a/src/octave.rs b/src/octave.rs
index 46c37ed..8184fae 100644
--- a/src/octave.rs
+++ b/src/octave.rs
@@ -34,6 +34,7 @@ impl Octave {
     pub const MAX_VALUE: Octave = Octave::Oct8;
     pub const BIAS_VALUE: i32 = 2;
 
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::octave_value_of(value, r)))]
     pub const fn value_of(value: i32) -> Result<Octave, OctaveError> {
         match value.checked_add(Self::BIAS_VALUE) {
             Some(idx) => Self::from_score_offset(idx),
@@ -41,6 +42,7 @@ impl Octave {
         }
     }
 
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::octave_from_index(idx, r)))]
     pub const fn from_score_offset(idx: i32) -> Result<Octave, OctaveError> {
         if idx < 0 || Self::ALL.len() <= (idx as usize) {
             Err(OctaveError::InvalidValue(idx))
diff --git a/src/pitch.rs b/src/pitch.rs
index 9c24ac7..69fa9ef 100644
--- a/src/pitch.rs
+++ b/src/pitch.rs
@@ -82,6 +82,7 @@ impl Pitch {
         }
     }
 
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::apply_key(self, key, r)))]
     pub fn apply_key(self, key: Key) -> Result<Self, PitchError> {
         if self.sharp_flat == SharpFlat::Null {
             match Key::SOLFAS.get(&key) {
@@ -103,6 +104,7 @@ impl Pitch {
         solfa.pitch_offset() + (octave.value() + Octave::BIAS_VALUE) * 12 + sharp_flat.offset()
     }
 
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::pitch_value_of(solfa, octave, sharp_flat, r)))]
     pub const fn value_of(solfa: Solfa, octave: Octave, sharp_flat: SharpFlat) -> Result<Self, PitchError> {
         let v: i32 = Self::to_value(solfa, octave, sharp_flat);
         if v < (MIN_VALUE as i32) {
@@ -123,6 +125,7 @@ impl Pitch {
         }
     }
 
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::with_accidental(self, crate::contracts::toggled_sharp(self.sharp_flat()), r)))]
     pub fn toggle_sharp(self) -> Result<Self, PitchError> {
         let sharp_flat = match self.sharp_flat {
             SharpFlat::Sharp => SharpFlat::DoubleSharp,
@@ -132,6 +135,7 @@ impl Pitch {
         Self::value_of(self.solfa, self.octave, sharp_flat)
     }
 
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::with_accidental(self, crate::contracts::toggled_flat(self.sharp_flat()), r)))]
     pub fn toggle_flat(self) -> Result<Self, PitchError> {
         let sharp_flat = match self.sharp_flat {
             SharpFlat::Flat => SharpFlat::DoubleFlat,
@@ -141,6 +145,7 @@ impl Pitch {
         Self::value_of(self.solfa, self.octave, sharp_flat)
     }
 
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::with_accidental(self, crate::contracts::toggled_natural(self.sharp_flat()), r)))]
     pub fn toggle_natural(self) -> Result<Self, PitchError> {
         let sharp_flat = match self.sharp_flat {
             SharpFlat::Natural => SharpFlat::Null,
@@ -149,6 +154,7 @@ impl Pitch {
         Self::value_of(self.solfa, self.octave, sharp_flat)
     }
 
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::pitch_from_position(score_offset, r)))]
     pub fn from_score_offset(score_offset: i32) -> Self {
         let score_offset = 
             if score_offset < MIN_SCORE_OFFSET {
@@ -163,6 +169,7 @@ impl Pitch {
         Self::value_of(solfa, octave, SharpFlat::Null).unwrap()
     }
 
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::pitch_delta(self, score_offset_delta, r)))]
     pub fn with_score_offset_delta(self, score_offset_delta: i32) -> Result<Self, PitchError> {
         let score_offset = (self.score_offset as i32).saturating_add(score_offset_delta);
         if score_offset < MIN_SCORE_OFFSET || MAX_SCORE_OFFSET < score_offset {
@@ -189,6 +196,7 @@ impl Pitch {
         self.sharp_flat
     }
 
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::pitch_up(self, r)))]
     pub fn up(self) -> Result<Self, PitchError> {
         let mut solfa = self.solfa;
         let mut octave = self.octave;
@@ -206,6 +214,7 @@ impl Pitch {
         Self::value_of(solfa, octave, self.sharp_flat)
     }
 
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::pitch_down(self, r)))]
     pub fn down(self) -> Result<Self, PitchError> {
         let mut solfa = self.solfa;
         let mut octave = self.octave;
diff --git a/src/play_iter.rs b/src/play_iter.rs
index cfbc426..934b3ec 100644
--- a/src/play_iter.rs
+++ b/src/play_iter.rs
@@ -6,6 +6,7 @@ pub struct PlayIter {
 pub const MAX_ITER: u8 = 5;
 
 impl PlayIter {
+  #[cfg_attr(kani, kani::ensures(|r| crate::contracts::play_iter_new(iter, r)))]
   pub fn new(iter: u8) -> Self {
     let iter = if iter < 1 { 1 } else { iter };
     let iter = if MAX_ITER < iter { MAX_ITER } else { iter };
diff --git a/src/rhythm.rs b/src/rhythm.rs
index c71f074..a56265b 100644
--- a/src/rhythm.rs
+++ b/src/rhythm.rs
@@ -136,6 +136,7 @@ impl Rhythm {
         self.denominator
     }
 
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::rhythm_value_of(numerator, denominator, r)))]
     pub fn value_of(numerator: u8, denominator: u8) -> Result<Rhythm, RhythmError> {
         let numerator = Numerator::from_value(numerator);
         let numerator = match numerator {
@@ -153,6 +154,7 @@ impl Rhythm {
         Ok(Self {numerator, denominator})
     }
 
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::bar_len(self, r)))]
     pub fn tick_len(self) -> u32 {
         ((self.numerator.0 as i32) * Duration::TICK_RESOLUTION * 4 / (self.denominator.value() as i32)) as u32
     }
diff --git a/src/solfa.rs b/src/solfa.rs
index c822b3c..0ba0bbb 100644
--- a/src/solfa.rs
+++ b/src/solfa.rs
@@ -53,6 +53,7 @@ impl Solfa {
         }
     }
 
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::solfa_from_index(offset, r)))]
     pub fn from_score_offset(offset: i32) -> Solfa {
         if offset < Self::C.score_offset() {
             Self::C
diff --git a/src/tempo.rs b/src/tempo.rs
index 0144ab4..ba49840 100644
--- a/src/tempo.rs
+++ b/src/tempo.rs
@@ -49,6 +49,7 @@ impl TempoValue {
         self.0
     }
 
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::tempo_up(self, r)))]
     pub fn up(self) -> Result<Self, TempoError> {
         let new_value = self.0 + 1;
         if MAX_TEMPO_VALUE < new_value {
@@ -58,6 +59,7 @@ impl TempoValue {
         }
     }
 
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::tempo_down(self, r)))]
     pub fn down(self) -> Result<Self, TempoError> {
         let cur = self.0;
         if cur <= MIN_TEMPO_VALUE {
@@ -97,6 +99,8 @@ impl Tempo {
         }
     }
 
+    #[cfg_attr(kani, kani::requires(0 <= self.start_tick as i64 + tick_delta as i64 && self.start_tick as i64 + tick_delta as i64 <= u32::MAX as i64))]
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::tempo_dragged(self, tick_delta, tempo_delta, r)))]
     pub fn drag(&self, tick_delta: i32, tempo_delta: i32) -> Self {
         Self {
              start_tick: (self.start_tick as i64 + tick_delta as i64) as u32,
@@ -108,6 +112,8 @@ impl Tempo {
         }
     }
 
+    #[cfg_attr(kani, kani::requires(self.start_tick <= crate::contracts::MAX_TICK))]
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::tick_added(self.start_tick, tick_delta, r, |m, t| crate::contracts::tempo_moved(self, m, t))))]
     pub fn with_tick_added(&self, tick_delta: i32) -> Result<Self, TickError> {
         let tick = self.start_tick as i64 + tick_delta as i64;
         if tick < 0 {
diff --git a/src/trimmer.rs b/src/trimmer.rs
index 4ba772b..dbebf01 100644
--- a/src/trimmer.rs
+++ b/src/trimmer.rs
@@ -34,6 +34,7 @@ struct TrimmerSerializedForm {
 impl Trimmer {
     pub const ZERO: Trimmer = Trimmer::new(0, 0, 0, 0);
 
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::trimmer_is(r, [value0, value1, value2, value3])))]
     pub const fn new(value0: i16, value1: i16, value2: i16, value3: i16) -> Self {
         Self {
             values: [value0, value1, value2, value3],
@@ -41,6 +42,7 @@ impl Trimmer {
         }
     }
 
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::trimmer_is(r, values)))]
     pub const fn from_array(values: [i16; 4]) -> Self {
         Self {
             values: values,
@@ -81,6 +83,7 @@ impl Trimmer {
         Self::from_array(values)
     }
 
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::trimmer_added(&old(self), old(tick), r)))]
     pub fn added(mut self, mut tick: i32) -> Self {
         for i in 0..4 {
             let t: i32 = (self.values[i] as i32).saturating_add(tick);
diff --git a/src/velocity.rs b/src/velocity.rs
index 6f7b77e..ddb179c 100644
--- a/src/velocity.rs
+++ b/src/velocity.rs
@@ -26,6 +26,7 @@ impl From<Serialized> for Velocity {
 
 impl Velocity {
     #[inline]
+    #[cfg_attr(kani, kani::ensures(|r| crate::contracts::velocity_new(value, r)))]
     pub fn new(value: u8) -> Self {
         if MAX_VALUE < value { MAX } else { Velocity(value) }
     }
-- 
2.43.0


From e224647ad0f290d0b2185ad8a3822ee69bad3d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 21/26] fix: a second pass without ticks before or after its
 codas no longer panics

---
 src/global_repeat.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/global_repeat.rs b/src/global_repeat.rs
index 0a4fa23..0746567 100644
--- a/src/global_repeat.rs
+++ b/src/global_repeat.rs
@@ -190,20 +190,24 @@ impl GlobalRepeatBuilder {
     }
   }
 
+  // A range without any tick is not stored.
+  fn add_range(ranges: &mut Vec<(u32, u32)>, start_tick: u32, end_tick: u32) {
+    if start_tick < end_tick {
+      ranges.push((start_tick, end_tick - 1));
+    }
+  }
+
   fn to_interval_set(start_tick: u32, fine: Option<u32>, coda: Option<[u32; 2]>) -> IntervalSet<u32> {
     let end_tick = fine.unwrap_or(u32::MAX);
+    let mut ranges: Vec<(u32, u32)> = vec![];
     match coda {
-        Some([coda_from, coda_to]) => vec![
-          (start_tick, coda_from - 1), (coda_to, end_tick - 1)
-        ],
-        None => {
-          if end_tick <= start_tick {
-            vec![]
-          } else {
-            vec![(start_tick, end_tick - 1)]
-          }
+        Some([coda_from, coda_to]) => {
+          Self::add_range(&mut ranges, start_tick, coda_from);
+          Self::add_range(&mut ranges, start_tick.max(coda_to), end_tick);
         }
-    }.to_interval_set()
+        None => Self::add_range(&mut ranges, start_tick, end_tick),
+    }
+    ranges.to_interval_set()
   }
 
   pub fn build(self) -> Result<(Option<GlobalRepeat>, Vec<RenderRegionWarning>), RenderRegionError> {
-- 
2.43.0


From 127155e32592972c220dc1c3037cb96c97afe48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 22/26] fix: a D.C. or D.S. score whose first bar line at tick
 0 starts a section no longer panics

---
 src/repeat.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/repeat.rs b/src/repeat.rs
index fb0ee3c..fca3192 100644
--- a/src/repeat.rs
+++ b/src/repeat.rs
@@ -148,7 +148,11 @@ impl Region for SequenceRegion {
   }
 
   fn to_iter1_interval_set(&self) -> IntervalSet<u32> {
-    (self.tick_range.start, self.tick_range.end - 1).to_interval_set()
+    if self.tick_range.is_empty() {
+      vec![].to_interval_set()
+    } else {
+      (self.tick_range.start, self.tick_range.end - 1).to_interval_set()
+    }
   }
 }
 
@@ -183,7 +187,7 @@ impl Region for RepeatRegion {
   }
 
   fn to_iter1_interval_set(&self) -> IntervalSet<u32> {
-    (self.region.start_tick(), self.region.end_tick() - 1).to_interval_set()
+    self.region.to_iter1_interval_set()
   }
 }
 
-- 
2.43.0


From 2e652660825e256939065761def3fc8d56521d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:44 +0000
Subject: [PATCH 23/26] fix: an ending after the fourth one is reported instead
 of panicking

---
 src/repeat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repeat.rs b/src/repeat.rs
index fca3192..0857169 100644
--- a/src/repeat.rs
+++ b/src/repeat.rs
@@ -464,7 +464,7 @@ pub fn render_region<'a>(tune_rhythm: Rhythm, bars: impl Iterator<Item = &'a Bar
             RenderRegionState::Variation { start_tick: *start_tick, region_start_ticks: rst }
           } else {
             return Err(report!(RenderRegionError::InvalidRegionIndex {
-              tick: bar.base_start_tick(), actual: ri, expected: VarIndex::from_value(current_idx + 1).unwrap()
+              tick: bar.base_start_tick(), actual: ri, expected: VarIndex::from_value(current_idx + 1).unwrap_or(VarIndex::VI4)
             }));
           }
         } else {
-- 
2.43.0


From fcf16d40002f66162ac144a6f736d76dcb72114a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:12 +0000
Subject: [PATCH 24/26] fix: a D.C. or D.S. inside a section that starts
 implicitly at the top is reported instead of panicking or dropping the
 section

---
 src/repeat.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/repeat.rs b/src/repeat.rs
index 0857169..d40d4bf 100644
--- a/src/repeat.rs
+++ b/src/repeat.rs
@@ -399,6 +399,14 @@ pub fn render_region<'a>(tune_rhythm: Rhythm, bars: impl Iterator<Item = &'a Bar
 
     state = match &state {
       RenderRegionState::Idle => {
+        if bar.repeats.contains(Repeat::End) || bar.repeats.region_index().is_some() {
+          // The section closed or continued here starts at the top.
+          if let Some(ds_dc) = global_repeat.ds_dc {
+            if ds_dc.tick() < bar.base_start_tick() {
+              return Err(report!(RenderRegionError::DcDsWhileRepeat { tick: ds_dc.tick() }));
+            }
+          }
+        }
         if bar.repeats.contains(Repeat::Start) && bar.repeats.contains(Repeat::End) {
           regions.push(Box::new(RepeatRegion { region: SequenceRegion { tick_range: 0..bar.base_start_tick() }}));
           RenderRegionState::RepeatStart { start_tick: bar.base_start_tick() }
-- 
2.43.0


From ec4ed453e49966609d2632baf588af921c0f6708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 25/26] fix: after D.C. only a first bar shorter than a full
 bar is skipped

---
 src/global_repeat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/global_repeat.rs b/src/global_repeat.rs
index 0746567..cb819aa 100644
--- a/src/global_repeat.rs
+++ b/src/global_repeat.rs
@@ -224,9 +224,9 @@ impl GlobalRepeatBuilder {
                 segno_tick
               } else {
                 let rhythm_tick_len = self.top_rhythm.tick_len();
-                if len + first_bar_len == rhythm_tick_len {
+                if rhythm_tick_len <= first_bar_len {
                   0
-                } else if len == rhythm_tick_len && first_bar_len == rhythm_tick_len {
+                } else if len + first_bar_len == rhythm_tick_len {
                   0
                 } else {
                   first_bar_len
-- 
2.43.0


From 8671300b7198430c8b6f206e65155f38b49bbab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:53 +0000
Subject: [PATCH 26/26] fix: seeking to a late tick no longer overflows when
 the accumulated time fits

---
 src/play_start_tick.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/play_start_tick.rs b/src/play_start_tick.rs
index c00406e..1a33e18 100644
--- a/src/play_start_tick.rs
+++ b/src/play_start_tick.rs
@@ -26,7 +26,7 @@ impl PlayStartTick {
         for (accum_tick, chunk) in chunks {
             if chunk.contains(self.tick) {
                 if cur_iter == self.iter.iter() {
-                    return Ok(accum_tick + self.tick - chunk.start_tick());
+                    return Ok(accum_tick + (self.tick - chunk.start_tick()));
                 }
                 cur_iter += 1;
             }
-- 
2.43.0

