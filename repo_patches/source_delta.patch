From aed0edd05e7ec8c3d0f2cb3db71e41f6b86150f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:12 +0000
Subject: [PATCH 01/50] fix: lazy intersection yields empty intervals for
 adjacent intervals

---
 src/iter/intersect.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/iter/intersect.rs b/src/iter/intersect.rs
index 8aba6c9..92426b5 100644
--- a/src/iter/intersect.rs
+++ b/src/iter/intersect.rs
@@ -112,7 +112,7 @@ impl<I,J> Iterator for IterIntersection<I,J>
                     match (self.i.next(), self.j.next()) {
                         (None,_)|(_,None) => { self.state = InterState::End; return None; }
 
-                        (Some(i), Some(j)) if i.upper < j.lower.just_before() => {
+                        (Some(i), Some(j)) if i.upper < j.lower => {
                             // i:       [------------------]
                             // j:                                  [--------]
                             //=>tmp:                               [--------]
@@ -120,7 +120,7 @@ impl<I,J> Iterator for IterIntersection<I,J>
                             self.tmp=j;
                         },
 
-                        (Some(i), Some(j)) if j.upper < i.lower.just_before()  => {
+                        (Some(i), Some(j)) if j.upper < i.lower  => {
                             // i:                          [------------------]
                             // j:          [--------]
                             self.state = InterState::WaitJ;
@@ -149,11 +149,11 @@ impl<I,J> Iterator for IterIntersection<I,J>
                             self.state = InterState::End;
                             return None;
                         },
-                        Some(i) if i.upper < self.tmp.lower.just_before() => {
+                        Some(i) if i.upper < self.tmp.lower => {
                             // i:       [------------------]
                             // tmp:                                [--------]
                         },
-                        Some(i) if self.tmp.upper < i.lower.just_before()  => {
+                        Some(i) if self.tmp.upper < i.lower  => {
                             // i:                          [------------------]
                             // tmp:        [--------]
                             self.state = InterState::WaitJ;
@@ -182,11 +182,11 @@ impl<I,J> Iterator for IterIntersection<I,J>
                             self.state = InterState::End;
                             return None;
                         },
-                        Some(j) if j.upper < self.tmp.lower.just_before() => {
+                        Some(j) if j.upper < self.tmp.lower => {
                             // tmp:                                [--------]
                             // j:       [------------------]
                         },
-                        Some(j) if self.tmp.upper < j.lower.just_before()  => {
+                        Some(j) if self.tmp.upper < j.lower  => {
                             // tmp:        [--------]
                             // j:                          [------------------]
                             self.state = InterState::WaitI;
-- 
2.43.0


From 1ae154b5e0c9085220ff5f5d76c6198ab59e48cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:50 +0000
Subject: [PATCH 02/50] fix: intersection of disjoint intervals is the empty
 interval

---
 src/ops/intersect.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/ops/intersect.rs b/src/ops/intersect.rs
index 46415da..b3ed314 100644
--- a/src/ops/intersect.rs
+++ b/src/ops/intersect.rs
@@ -26,8 +26,7 @@ impl<T:TimePoint,TW> BitAndAssign<TW> for TimeInterval<T>
 {
     #[inline]
     fn bitand_assign(&mut self, tw: TW) {
-        if self.lower < tw.lower_bound() { self.lower = tw.lower_bound(); }
-        if self.upper > tw.upper_bound() { self.upper = tw.upper_bound(); }
+        *self = (*self).bitand(tw);
     }
 }
 
@@ -48,10 +47,8 @@ impl<T:TimePoint,TW> BitAnd<TW> for &TimeInterval<T>
     #[inline]
     fn bitand(self, tw: TW) -> Self::Output {
         let i = tw.into();
-        TimeInterval {
-            lower: self.lower.max(i.lower),
-            upper: self.upper.min(i.upper)
-        }
+        // the interval is empty if the bounds are not ordered
+        TimeInterval::new(self.lower.max(i.lower), self.upper.min(i.upper))
     }
 }
 
-- 
2.43.0


From 0adaa30cbc522636876fe10ad05a035f3e3391d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:50 +0000
Subject: [PATCH 03/50] fix: lazy union loses the end of its first operand

---
 src/iter/union.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iter/union.rs b/src/iter/union.rs
index b57d3b1..023950f 100644
--- a/src/iter/union.rs
+++ b/src/iter/union.rs
@@ -186,8 +186,8 @@ impl<I,J> Iterator for IterUnion<I,J>
                 UnionState::WaitJ => {
                     match self.j.next() {
                         None => {
-                            /* end of the iterator over i...*/
-                            self.state = UnionState::OnlyJ;
+                            /* end of the iterator over j...*/
+                            self.state = UnionState::OnlyI;
                             return Some(self.tmp);
                         },
                         Some(j) if j.upper < self.tmp.lower.just_before() => {
-- 
2.43.0


From 96c8bb97e99a199a93d5aa9a74362715b49589d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:51 +0000
Subject: [PATCH 04/50] fix: size hint of the lazy union ignores its pending
 interval

---
 src/iter/union.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/iter/union.rs b/src/iter/union.rs
index 023950f..d920521 100644
--- a/src/iter/union.rs
+++ b/src/iter/union.rs
@@ -234,9 +234,11 @@ impl<I,J> Iterator for IterUnion<I,J>
             UnionState::OnlyJ => { self.j.size_hint() }
             UnionState::End => { (0, Some(0)) }
             _ => {
+                // if started, one interval is pending in tmp
+                let pending = if let UnionState::Init = self.state { 0 } else { 1 };
                 if let (_,Some(imax)) = self.i.size_hint() {
                     if let (_,Some(jmax)) = self.j.size_hint() {
-                        return (0, Some(imax.saturating_add(jmax)));
+                        return (0, imax.checked_add(jmax).and_then(|max| max.checked_add(pending)));
                     }
                 }
                 (0, None)
-- 
2.43.0


From d988772b39d6ccc4063118cb55d842362224363c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:51 +0000
Subject: [PATCH 05/50] fix: size hint of the lazy complementary ignores its
 last interval

---
 src/iter/compl.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/iter/compl.rs b/src/iter/compl.rs
index 84205a9..c6ee3dc 100644
--- a/src/iter/compl.rs
+++ b/src/iter/compl.rs
@@ -91,10 +91,6 @@ impl<I:TimeConvexIterator> Iterator for IterComplementary<I>
     fn size_hint(&self) -> (usize, Option<usize>)
     {
         let (min,max) = self.iter.size_hint();
-        if self.lower.is_finite() {
-            (min.saturating_sub(1), max)
-        } else {
-            (min.saturating_sub(1), max.map(|i| i + 1))
-        }
+        (min.saturating_sub(1), max.and_then(|i| i.checked_add(1)))
     }
 }
-- 
2.43.0


From 5fafdca028520ec7006f4f221fe6015e5fdbc330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:52 +0000
Subject: [PATCH 06/50] fix: collecting empty intervals breaks the time set

---
 src/wins/timeset.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wins/timeset.rs b/src/wins/timeset.rs
index 7890ae3..2b56d15 100644
--- a/src/wins/timeset.rs
+++ b/src/wins/timeset.rs
@@ -130,7 +130,9 @@ impl<T:TimePoint> FromIterator<TimeInterval<T>> for TimeSet<T>
             Some(first) => iter.fold(first.into(), |mut r, i| {
                 // very most of the time, time iterators are chronologically sorted
                 // so if the gap is more than one tick, just add the new convex at the end
-                if i.lower_bound() > r.upper_bound().just_after() {
+                if i.is_empty() {
+                    // nothing to add
+                } else if i.lower_bound() > r.upper_bound().just_after() {
                     r.0.push(i)
                 } else {
                     r |= i
-- 
2.43.0


From 7da4ebe53c8bd0d21f4ba1a7fc60bad57c2dc0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:52 +0000
Subject: [PATCH 07/50] fix: singleton set of an infinite value is the empty
 set

---
 src/wins/timeset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wins/timeset.rs b/src/wins/timeset.rs
index 2b56d15..0471fce 100644
--- a/src/wins/timeset.rs
+++ b/src/wins/timeset.rs
@@ -43,7 +43,7 @@ impl<T:TimePoint> TimeSet<T>
     /// Retuns a timeset composed of the convex interval `[t,t]`
     #[inline]
     pub fn singleton(t: T) -> Self {
-        Self(vec![TimeInterval::singleton(t)])
+        TimeInterval::singleton(t).into()
     }
 
     /// The empty set
-- 
2.43.0


From 914ce256d9878479581205b5e5b9bdb74fc7e798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:36 +0000
Subject: [PATCH 08/50] fix: an empty interval is bounded on no side

---
 src/wins/format.rs       | 4 +++-
 src/wins/timeinterval.rs | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/wins/format.rs b/src/wins/format.rs
index e97c111..9ed3c43 100644
--- a/src/wins/format.rs
+++ b/src/wins/format.rs
@@ -199,7 +199,9 @@ impl<T:TimePoint+fmt::Debug> fmt::Debug for TimeInterval<T>
     #[allow(clippy::collapsible_else_if)]
     fn fmt(&self, formatter: &mut fmt::Formatter) -> fmt::Result
     {
-        if self.is_low_bounded() {
+        if self.is_empty() {
+            write!(formatter, "{{}}")
+        } else if self.is_low_bounded() {
             if self.is_up_bounded() {
                 if self.lower == self.upper {
                     write!(formatter, "{{{:?}}}", self.lower)
diff --git a/src/wins/timeinterval.rs b/src/wins/timeinterval.rs
index 9c21513..c47fc9a 100644
--- a/src/wins/timeinterval.rs
+++ b/src/wins/timeinterval.rs
@@ -184,8 +184,8 @@ impl<T:TimePoint> TimeBounds for TimeInterval<T>
     #[inline] fn is_empty(&self) -> bool { self.lower.is_future_infinite() }
     #[inline] fn is_singleton(&self) -> bool { self.lower == self.upper }
     #[inline] fn is_bounded(&self) -> bool { self.is_low_bounded() && self.is_up_bounded() }
-    #[inline] fn is_low_bounded(&self) -> bool { !self.lower.is_past_infinite() }
-    #[inline] fn is_up_bounded(&self) -> bool { !self.upper.is_future_infinite() }
+    #[inline] fn is_low_bounded(&self) -> bool { self.lower.is_finite() }
+    #[inline] fn is_up_bounded(&self) -> bool { self.upper.is_finite() }
     #[inline] fn lower_bound(&self) -> Self::TimePoint { self.lower }
     #[inline] fn upper_bound(&self) -> Self::TimePoint { self.upper }
 }
-- 
2.43.0


From 8173e21c3e127b23562fa48c7f01d77d687b1e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:37 +0000
Subject: [PATCH 09/50] fix: an empty window is not the whole time line

---
 src/wins/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wins/mod.rs b/src/wins/mod.rs
index 8acaf6d..73a72d7 100644
--- a/src/wins/mod.rs
+++ b/src/wins/mod.rs
@@ -74,7 +74,7 @@ pub trait TimeWindow : TimeBounds {
 
     #[inline]
     fn is_all(&self) -> bool {
-        self.is_convex() && !self.is_low_bounded() && !self.is_up_bounded()
+        !self.is_empty() && self.is_convex() && !self.is_low_bounded() && !self.is_up_bounded()
     }
 
     /// Checks if this time window is an interval
-- 
2.43.0


From 2992b2cd55e482eac125d04682682f1c45f6c57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:37 +0000
Subject: [PATCH 10/50] fix: a set contains any empty window

---
 src/relns/contain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/relns/contain.rs b/src/relns/contain.rs
index 16a9f72..5cdf087 100644
--- a/src/relns/contain.rs
+++ b/src/relns/contain.rs
@@ -22,7 +22,7 @@ impl<T:TimePoint,TW> TimeContaining<TW> for TimeSet<T>
     #[inline]
     fn contains(&self, rhs: &TW) -> bool
     {
-        self.0.iter()
+        rhs.is_empty() || self.0.iter()
             .find(|ts| ts.upper_bound() >= rhs.lower_bound())
             .map(|ts| ts.contains(rhs))
             .unwrap_or(false)
-- 
2.43.0


From 95b2dd5b6fbd0c8bef4ef698c6e8f7d371057e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:37 +0000
Subject: [PATCH 11/50] fix: an empty window overlaps nothing

---
 src/relns/overlap.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/relns/overlap.rs b/src/relns/overlap.rs
index 5f37e78..4ff4b4c 100644
--- a/src/relns/overlap.rs
+++ b/src/relns/overlap.rs
@@ -14,7 +14,8 @@ impl<TW1:TimeConvex,TW2:TimeConvex> TimeOverlapping<TW2> for TW1
 {
     #[inline]
     fn overlaps(&self, rhs: &TW2) -> bool {
-        self.lower_bound() <= rhs.upper_bound() && rhs.lower_bound() <= self.upper_bound()
+        !self.is_empty() && !rhs.is_empty()
+            && self.lower_bound() <= rhs.upper_bound() && rhs.lower_bound() <= self.upper_bound()
     }
 }
 
@@ -33,7 +34,7 @@ impl<T:TimePoint, TW> TimeOverlapping<TW> for TimeSet<T>
     #[inline]
     fn overlaps(&self, rhs: &TW) -> bool
     {
-        self.0.iter()
+        !rhs.is_empty() && self.0.iter()
             .find(|ts| ts.upper_bound() >= rhs.lower_bound())
             .map(|ts| ts.lower_bound() <= rhs.upper_bound())
             .unwrap_or(false)
-- 
2.43.0


From 2d61c8304fade7aeb3b3869171df71acd572107a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:23 +0000
Subject: [PATCH 12/50] fix: translating a non-singleton interval in place
 panics

---
 src/ops/transl.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ops/transl.rs b/src/ops/transl.rs
index e2a84ca..291239a 100644
--- a/src/ops/transl.rs
+++ b/src/ops/transl.rs
@@ -33,7 +33,7 @@ impl<T> AddAssign<TimeValue> for TimeInterval<T>
     fn add_assign(&mut self, other: TimeValue) {
         self.lower += other;
         self.upper += other;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        assert!( (self.lower != self.upper) || self.lower.is_finite() );
     }
 }
 
@@ -44,7 +44,7 @@ impl<T> SubAssign<TimeValue> for TimeInterval<T>
     fn sub_assign(&mut self, other: TimeValue) {
         self.lower -= other;
         self.upper -= other;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        assert!( (self.lower != self.upper) || self.lower.is_finite() );
     }
 }
 
@@ -91,7 +91,7 @@ impl<T> AddAssign<TimeSpan> for TimeInterval<T>
     fn add_assign(&mut self, other: TimeSpan) {
         self.lower += other.lower;
         self.upper += other.upper;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        assert!( (self.lower != self.upper) || self.lower.is_finite() );
     }
 }
 
@@ -102,7 +102,7 @@ impl<T> SubAssign<TimeSpan> for TimeInterval<T>
     fn sub_assign(&mut self, other: TimeSpan) {
         self.lower -= other.upper;
         self.upper -= other.lower;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        assert!( (self.lower != self.upper) || self.lower.is_finite() );
     }
 }
 
-- 
2.43.0


From 44b51c9369b3afbcf89de519d40a3d7119a44115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:56 +0000
Subject: [PATCH 13/50] fix: translation of or by an empty interval is empty

---
 src/ops/transl.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ops/transl.rs b/src/ops/transl.rs
index 291239a..2f5cd3a 100644
--- a/src/ops/transl.rs
+++ b/src/ops/transl.rs
@@ -9,6 +9,7 @@ impl<T> Add<TimeValue> for TimeInterval<T>
 {
     type Output = Self;
     #[inline] fn add(self, other: TimeValue) -> Self::Output {
+        if self.is_empty() { return Self::empty() }
         let tw = TimeInterval::new(self.lower + other, self.upper + other);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -20,6 +21,7 @@ impl<T> Sub<TimeValue> for TimeInterval<T>
 {
     type Output = Self;
     #[inline] fn sub(self, other: TimeValue) -> Self::Output {
+        if self.is_empty() { return Self::empty() }
         let tw = TimeInterval::new(self.lower - other, self.upper - other);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -31,6 +33,7 @@ impl<T> AddAssign<TimeValue> for TimeInterval<T>
 {
     #[inline]
     fn add_assign(&mut self, other: TimeValue) {
+        if self.is_empty() { return }
         self.lower += other;
         self.upper += other;
         assert!( (self.lower != self.upper) || self.lower.is_finite() );
@@ -42,6 +45,7 @@ impl<T> SubAssign<TimeValue> for TimeInterval<T>
 {
     #[inline]
     fn sub_assign(&mut self, other: TimeValue) {
+        if self.is_empty() { return }
         self.lower -= other;
         self.upper -= other;
         assert!( (self.lower != self.upper) || self.lower.is_finite() );
@@ -67,6 +71,7 @@ impl<T> Add<TimeSpan> for TimeInterval<T>
 {
     type Output = Self;
     #[inline] fn add(self, other: TimeSpan) -> Self::Output {
+        if self.is_empty() || other.is_empty() { return Self::empty() }
         let tw = TimeInterval::new(self.lower + other.lower, self.upper + other.upper);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -78,6 +83,7 @@ impl<T> Sub<TimeSpan> for TimeInterval<T>
 {
     type Output = Self;
     #[inline] fn sub(self, other: TimeSpan) -> Self::Output {
+        if self.is_empty() || other.is_empty() { return Self::empty() }
         let tw = TimeInterval::new(self.lower - other.upper, self.upper - other.lower);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -89,6 +95,7 @@ impl<T> AddAssign<TimeSpan> for TimeInterval<T>
 {
     #[inline]
     fn add_assign(&mut self, other: TimeSpan) {
+        if self.is_empty() || other.is_empty() { *self = Self::empty(); return }
         self.lower += other.lower;
         self.upper += other.upper;
         assert!( (self.lower != self.upper) || self.lower.is_finite() );
@@ -100,6 +107,7 @@ impl<T> SubAssign<TimeSpan> for TimeInterval<T>
 {
     #[inline]
     fn sub_assign(&mut self, other: TimeSpan) {
+        if self.is_empty() || other.is_empty() { *self = Self::empty(); return }
         self.lower -= other.upper;
         self.upper -= other.lower;
         assert!( (self.lower != self.upper) || self.lower.is_finite() );
@@ -110,6 +118,7 @@ impl Add<TimeSpan> for Timestamp {
     type Output = TimeSlot;
     #[inline]
     fn add(self, other: TimeSpan) -> Self::Output {
+        if other.is_empty() { return TimeSlot::empty() }
         let tw = TimeSlot::new(self + other.lower, self + other.upper);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -120,6 +129,7 @@ impl Sub<TimeSpan> for Timestamp {
     type Output = TimeSlot;
     #[inline]
     fn sub(self, other: TimeSpan) -> Self::Output {
+        if other.is_empty() { return TimeSlot::empty() }
         let tw = TimeSlot::new(self - other.upper, self - other.lower);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -142,6 +152,7 @@ impl Sub for TimeSlot {
     type Output = TimeSpan;
     #[inline]
     fn sub(self, other: Self) -> Self::Output {
+        if self.is_empty() || other.is_empty() { return TimeSpan::empty() }
         let tw = TimeInterval::new(self.lower - other.upper,self.upper - other.lower);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -152,6 +163,7 @@ impl Sub<Timestamp> for TimeSlot {
     type Output = TimeSpan;
     #[inline]
     fn sub(self, other: Timestamp) -> Self::Output {
+        if self.is_empty() { return TimeSpan::empty() }
         let tw = TimeInterval::new(self.lower - other,self.upper - other);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -162,6 +174,7 @@ impl Sub<TimeSlot> for Timestamp {
     type Output = TimeSpan;
     #[inline]
     fn sub(self, other: TimeSlot) -> Self::Output {
+        if other.is_empty() { return TimeSpan::empty() }
         let tw = TimeInterval::new(self - other.upper,self - other.lower);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
-- 
2.43.0


From e0c0795c9db6af371e46ea9c39739ebf9fb2e93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:48 +0000
Subject: [PATCH 14/50] fix: dividing or scaling down an infinite duration
 keeps it infinite

---
 src/ops/scaling.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index 611abde..34766ea 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -15,7 +15,8 @@ macro_rules! timevalscalingsmall {
         impl Div<$scale> for TimeValue {
             type Output = Self;
             #[inline] fn div(self, n: $scale) -> Self::Output {
-                TimeValue::from_ticks(self.0.saturating_div(n as i64))
+                let t = TimeValue::from_ticks(self.0.saturating_div(n as i64));
+                if self.is_finite() { t } else if (n as i64) < 0 { -self } else { self }
             }
         }
     };
@@ -47,7 +48,9 @@ macro_rules! timevalscalingbig {
         impl Div<$time> for TimeValue {
             type Output = Self;
             #[inline] fn div(self, n: $time) -> Self::Output {
-                if n > INFINITE_TIME_VALUE as $time || n < -INFINITE_TIME_VALUE as $time {
+                if !self.is_finite() && n != 0 {
+                    if n < 0 { -self } else { self }
+                } else if n > INFINITE_TIME_VALUE as $time || n < -INFINITE_TIME_VALUE as $time {
                     TimeValue::default() // zero
                 } else {
                     TimeValue::from_ticks(self.0.saturating_div(n as i64))
@@ -77,7 +80,9 @@ macro_rules! timevalscalingubig {
         impl Div<$time> for TimeValue {
             type Output = Self;
             #[inline] fn div(self, n: $time) -> Self::Output {
-                if n > INFINITE_TIME_VALUE as $time {
+                if !self.is_finite() && n != 0 {
+                    self
+                } else if n > INFINITE_TIME_VALUE as $time {
                     TimeValue::default() // zero
                 } else {
                     TimeValue::from_ticks(self.0.saturating_div(n as i64))
@@ -100,7 +105,9 @@ macro_rules! timevalscalingfloat {
             #[inline]
             fn mul(self, n: $time) -> Self::Output {
                 let t = self.0 as $time * n;
-                if t > INFINITE_TIME_VALUE as $time {
+                if !self.is_finite() && n != 0. {
+                    if n < 0. { -self } else { self }
+                } else if t > INFINITE_TIME_VALUE as $time {
                     TimeValue::INFINITE
                 } else if t < -INFINITE_TIME_VALUE as $time {
                     -TimeValue::INFINITE
-- 
2.43.0


From 2fd5b6f0af48a21c92d8c607fd0b13882e428763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:48 +0000
Subject: [PATCH 15/50] fix: duration scaled by a huge factor takes its sign
 into account

---
 src/ops/scaling.rs | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index 34766ea..68cee21 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -36,13 +36,8 @@ macro_rules! timevalscalingbig {
         impl Mul<$time> for TimeValue {
             type Output = Self;
             #[inline] fn mul(self, n: $time) -> Self::Output {
-                if n > INFINITE_TIME_VALUE as $time {
-                    TimeValue::INFINITE
-                } else if n < -INFINITE_TIME_VALUE as $time {
-                    -TimeValue::INFINITE
-                } else {
-                    TimeValue::from_ticks(self.0.saturating_mul(n as i64))
-                }
+                let t = (self.0 as i128).saturating_mul(n as i128);
+                TimeValue::from_ticks(t.clamp(-INFINITE_TIME_VALUE as i128, INFINITE_TIME_VALUE as i128) as i64)
             }
         }
         impl Div<$time> for TimeValue {
@@ -70,11 +65,9 @@ macro_rules! timevalscalingubig {
         impl Mul<$time> for TimeValue {
             type Output = Self;
             #[inline] fn mul(self, n: $time) -> Self::Output {
-                if n > INFINITE_TIME_VALUE as $time {
-                    TimeValue::INFINITE
-                } else {
-                    TimeValue::from_ticks(self.0.saturating_mul(n as i64))
-                }
+                let n = i128::try_from(n).unwrap_or(i128::MAX);
+                let t = (self.0 as i128).saturating_mul(n);
+                TimeValue::from_ticks(t.clamp(-INFINITE_TIME_VALUE as i128, INFINITE_TIME_VALUE as i128) as i64)
             }
         }
         impl Div<$time> for TimeValue {
-- 
2.43.0


From e4c9fe1f7744fa1c31c77369e13906585d67c021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:23 +0000
Subject: [PATCH 16/50] fix: scaling an empty interval gives an empty interval

---
 src/ops/scaling.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index 68cee21..cbc3478 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -156,6 +156,7 @@ macro_rules! timespanscalingint {
             #[inline]
             #[allow(unused_comparisons)]
             fn mul(self, n: $scale) -> Self::Output {
+                if self.is_empty() { return self }
                 let (lower, upper) = if n < 0 {
                     // negative factor -> reverse interval
                     (self.upper * n, self.lower * n)
@@ -172,6 +173,7 @@ macro_rules! timespanscalingint {
             #[inline]
             #[allow(unused_comparisons)]
             fn div(self, n: $scale) -> Self::Output {
+                if self.is_empty() { return self }
                 let (lower, upper) = if n < 0 {
                     // negative factor -> reverse interval
                     (self.upper / n, self.lower / n)
@@ -204,6 +206,7 @@ macro_rules! timespanscalingfloat {
             type Output = TimeSpan;
             #[inline]
             fn mul(self, f: $scale) -> Self::Output {
+                if self.is_empty() { return self }
                 let (lower, upper) = if f < 0. {
                     // negative factor -> reverse interval
                     (self.upper * f, self.lower * f)
@@ -219,6 +222,7 @@ macro_rules! timespanscalingfloat {
             type Output = TimeSpan;
             #[inline]
             fn div(self, f: $scale) -> Self::Output {
+                if self.is_empty() { return self }
                 let (lower, upper) = if f < 0. {
                     // negative factor -> reverse interval
                     (self.upper / f, self.lower / f)
-- 
2.43.0


From 336e22a5a5b39fe92a42cecb00ca6d4ebc827a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:24 +0000
Subject: [PATCH 17/50] fix: multiplying a time set by zero gives the zero
 duration

---
 src/ops/scaling.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index cbc3478..01eee33 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -266,7 +266,7 @@ macro_rules! timespansscaleint {
                     if self.is_empty() {
                         TimeSpans::empty()
                     } else {
-                        Self(vec![ TimeSpan::default() ])
+                        Self(vec![ TimeSpan::singleton(TimeValue::default()) ])
                     }
                 } else {
                     // since factor is non null integer, the scale increases distances between
@@ -293,7 +293,7 @@ macro_rules! timespansscaleint {
                 if n == 0 {
                     if !self.is_empty() {
                         self.0.clear();
-                        self.0.push(TimeSpan::default());
+                        self.0.push(TimeSpan::singleton(TimeValue::default()));
                     }
                 } else {
                     self.0.iter_mut().for_each(|tw| *tw *= n);
-- 
2.43.0


From 1feb6213024e48cb864bf899e953486ade82ba92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:24 +0000
Subject: [PATCH 18/50] fix: intervals joined by a float scaling are merged

---
 src/ops/scaling.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index 01eee33..84a08bb 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -338,7 +338,7 @@ macro_rules! timespansscalefloat {
                     .map(|tw| *tw * f)
                     .collect::<Vec<_>>();
                 if f < 0. { inners.reverse() }
-                if f.abs() > 1. { check_joined_inners(&mut inners); }
+                check_joined_inners(&mut inners);
                 Self(inners)
             }
         }
@@ -351,7 +351,7 @@ macro_rules! timespansscalefloat {
             fn mul_assign(&mut self, f: $scale) {
                 self.0.iter_mut().for_each(|tw| *tw *= f);
                 if f < 0. { self.0.reverse() }
-                if f.abs() < 1. { check_joined_inners(&mut self.0) }
+                check_joined_inners(&mut self.0)
             }
         }
         impl DivAssign<$scale> for TimeSpans {
-- 
2.43.0


From 11b78c7c44b98fc066a577e89f148b539f2adafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:28 +0000
Subject: [PATCH 19/50] fix: lazy scaling yields sorted and disjoint intervals

---
 src/iter/scaling.rs | 33 +++++----------------------------
 1 file changed, 5 insertions(+), 28 deletions(-)

diff --git a/src/iter/scaling.rs b/src/iter/scaling.rs
index b80fe6e..4c5ed10 100644
--- a/src/iter/scaling.rs
+++ b/src/iter/scaling.rs
@@ -15,35 +15,12 @@ impl<I:TimeConvexIterator,S:Copy> TimeScaling<S> for I
     where
         I::Item: Mul<S,Output=I::Item>
 {
-    type Output = TimeValueScaleIter<I,S>;
+    type Output = crate::iter::intoiter::IntoConvexIter<I::TimePoint,std::vec::IntoIter<TimeInterval<I::TimePoint>>>;
 
     fn scaling(self, scale: S) -> Self::Output {
-        TimeValueScaleIter { scale, iter: self }
+        // a negative factor reverses the order of the intervals and a fractional
+        // one could join some of them
+        let tw = self.map(|tw| tw*scale).collect::<TimeSet<I::TimePoint>>();
+        tw.into_iter()
     }
 }
-
-pub struct TimeValueScaleIter<I:TimeConvexIterator,S:Copy> {
-    scale: S,
-    iter: I
-}
-
-impl<I:TimeConvexIterator,S:Copy> Iterator for TimeValueScaleIter<I,S>
-    where
-        I::Item: Mul<S,Output=I::Item>
-{
-    type Item = I::Item;
-
-    fn next(&mut self) -> Option<Self::Item> {
-        self.iter.next().map(|tw| tw*self.scale)
-            .and_then(|tw| if tw.is_empty() { None } else { Some(tw) })
-    }
-}
-
-
-impl<I:TimeConvexIterator,S:Copy> TimeConvexIterator for TimeValueScaleIter<I,S>
-    where
-        I::Item: Mul<S,Output=I::Item>
-{
-    type TimePoint = I::TimePoint;
-}
-
-- 
2.43.0


From 9230faa8436986982f3e55899e70ad1fb7377d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:54 +0000
Subject: [PATCH 20/50] fix: durations built from very negative unit counts are
 -oo

---
 src/wins/timevalue.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wins/timevalue.rs b/src/wins/timevalue.rs
index dcc0c20..a77545d 100644
--- a/src/wins/timevalue.rs
+++ b/src/wins/timevalue.rs
@@ -56,6 +56,8 @@ impl TimeValue {
     {
         if sec > MAX_SEC {
             TimeValue::INFINITE
+        } else if sec < -MAX_SEC {
+            -TimeValue::INFINITE
         } else {
             Self(sec << SUBSEC_BITLEN)
         }
@@ -67,6 +69,8 @@ impl TimeValue {
         let frac = t - sec*unit;
         if sec > MAX_SEC {
             TimeValue::INFINITE
+        } else if sec < -MAX_SEC {
+            -TimeValue::INFINITE
         } else {
             // we should separate in order to deal with overflow
             Self((sec<<SUBSEC_BITLEN) + (frac << SUBSEC_BITLEN)/unit)
-- 
2.43.0


From 66b9dd41517677994c084f38eed78ab8cbb31b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:55 +0000
Subject: [PATCH 21/50] fix: chrono durations out of range convert to the
 infinity of their sign

---
 src/wins/timevalue.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wins/timevalue.rs b/src/wins/timevalue.rs
index a77545d..87d63bc 100644
--- a/src/wins/timevalue.rs
+++ b/src/wins/timevalue.rs
@@ -267,6 +267,7 @@ impl From<chrono::Duration> for TimeValue
     fn from(t: chrono::Duration) -> Self
     {
         match t.num_nanoseconds() {
+            None if t < chrono::Duration::zero() => -TimeValue::INFINITE,
             None => TimeValue::INFINITE,
             Some(nanos) => TimeValue::from_nanos(nanos)
         }
-- 
2.43.0


From 903ba14f5a63e8c5d44a7209e9024a24f7752f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:55 +0000
Subject: [PATCH 22/50] fix: standard durations up to the finite range are
 converted exactly

---
 src/wins/timevalue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wins/timevalue.rs b/src/wins/timevalue.rs
index 87d63bc..2a401e6 100644
--- a/src/wins/timevalue.rs
+++ b/src/wins/timevalue.rs
@@ -288,7 +288,7 @@ impl From<time::Duration> for TimeValue
     fn from(t: time::Duration) -> Self
     {
         let sec = t.as_secs();
-        if sec > i32::MAX as u64 {
+        if sec > MAX_SEC as u64 {
             TimeValue::INFINITE
         } else {
             let ns = t.subsec_nanos() as i64;
-- 
2.43.0


From ddb0d1e260ab99f51c54b9e236da9b6a4fdc8abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:55 +0000
Subject: [PATCH 23/50] fix: far calendar dates convert to an infinite
 timestamp instead of panicking

---
 src/wins/timestamp.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/wins/timestamp.rs b/src/wins/timestamp.rs
index ce393aa..723bd3b 100644
--- a/src/wins/timestamp.rs
+++ b/src/wins/timestamp.rs
@@ -103,7 +103,7 @@ impl From<NaiveDateTime> for Timestamp
 {
     #[inline]
     fn from(t: NaiveDateTime) -> Self {
-        Self(TimeValue::from_nanos(t.timestamp_nanos_opt().unwrap()))
+        Self::from(t.and_utc())
     }
 }
 
@@ -112,7 +112,11 @@ impl<Tz:TimeZone> From<DateTime<Tz>> for Timestamp
 {
     #[inline]
     fn from(t: DateTime<Tz>) -> Self {
-        Self(TimeValue::from_nanos(t.timestamp_nanos_opt().unwrap()))
+        match t.timestamp_nanos_opt() {
+            Some(nanos) => Self(TimeValue::from_nanos(nanos)),
+            None if t.timestamp() < 0 => -Self::INFINITE,
+            None => Self::INFINITE
+        }
     }
 }
 
-- 
2.43.0


From b75b694bce2336c803736644b6021b9ca68e3252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:28 +0000
Subject: [PATCH 24/50] fix: rounding is exact for negative values and keeps
 infinite ones

---
 src/wins/timevalue.rs | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/wins/timevalue.rs b/src/wins/timevalue.rs
index 2a401e6..fb580ac 100644
--- a/src/wins/timevalue.rs
+++ b/src/wins/timevalue.rs
@@ -196,25 +196,14 @@ impl TimeValue {
     #[inline]
     pub fn floor(self, period:TimeValue) -> Self
     {
-        Self(
-            if self.0 >= 0 {
-                (self.0/period.0)*period.0
-            } else {
-                ((self.0+1)/period.0-1)*period.0
-            }
-        )
+        if !self.is_finite() { return self }
+        Self::from_ticks(self.0.div_euclid(period.0).saturating_mul(period.0))
     }
 
     #[inline]
     pub fn ceil(self, period:TimeValue) -> Self
     {
-        Self(
-            if self.0 > 0 {
-                ((self.0-1)/period.0+1)*period.0
-            } else {
-                ((self.0-1)/period.0)*period.0
-            }
-        )
+        -(-self).floor(period)
     }
 }
 
-- 
2.43.0


From 94368dd5a039527e7ed3b3b2f0678ec028658681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:28 +0000
Subject: [PATCH 25/50] fix: truncation to months counts months instead of
 years

---
 src/wins/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wins/convert.rs b/src/wins/convert.rs
index 1fbe240..1a5a2e9 100644
--- a/src/wins/convert.rs
+++ b/src/wins/convert.rs
@@ -21,7 +21,7 @@ impl IntoTimeValue for TimeValue
         if self.is_strictly_negative() { self.ceil(1.years()) } else { self.floor(1.years())}
     }
     #[inline] fn months(self) -> TimeValue {
-        if self.is_strictly_negative() { self.ceil(1.years()) } else { self.floor(1.years())}
+        if self.is_strictly_negative() { self.ceil(1.months()) } else { self.floor(1.months())}
     }
     #[inline] fn weeks(self) -> TimeValue {
         if self.is_strictly_negative() { self.ceil(1.weeks()) } else { self.floor(1.weeks())}
-- 
2.43.0


From 708093c9f72d1b4a2a7d71bfafe6c0c8822686cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:29 +0000
Subject: [PATCH 26/50] fix: truncation to seconds goes toward zero and keeps
 infinite values

---
 src/wins/convert.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wins/convert.rs b/src/wins/convert.rs
index 1a5a2e9..de6a7f6 100644
--- a/src/wins/convert.rs
+++ b/src/wins/convert.rs
@@ -1,4 +1,4 @@
-use crate::{SUBSEC_BITMASK, TimeValue};
+use crate::TimeValue;
 
 pub trait IntoTimeValue
 {
@@ -35,7 +35,9 @@ impl IntoTimeValue for TimeValue
     #[inline] fn mins(self) -> TimeValue {
         if self.is_strictly_negative() { self.ceil(1.mins()) } else { self.floor(1.mins())}
     }
-    #[inline] fn secs(mut self) -> TimeValue { self.0 &= !SUBSEC_BITMASK; self }
+    #[inline] fn secs(self) -> TimeValue {
+        if self.is_strictly_negative() { self.ceil(1.secs()) } else { self.floor(1.secs())}
+    }
 
     #[inline] fn millis(self) -> TimeValue {
         if self.is_strictly_negative() { self.ceil(1.millis()) } else { self.floor(1.millis())}
-- 
2.43.0


From f314d4e15f216b633424007c8a969adb4b6ce259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:22 +0000
Subject: [PATCH 27/50] fix: formatted empty window is written {}

---
 src/wins/format.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wins/format.rs b/src/wins/format.rs
index 9ed3c43..75c5204 100644
--- a/src/wins/format.rs
+++ b/src/wins/format.rs
@@ -86,7 +86,7 @@ fn format_timeslot<TW:TimeConvex>(tw: &TW, timefmt: &str) -> String
     where TW::TimePoint: TimePointFormat
 {
     if tw.is_empty() {
-        "{{}}".to_string()
+        "{}".to_string()
 
     } else if tw.is_singleton() {
         format!("{{{}}}", tw.lower_bound().format_timepoint(timefmt))
@@ -114,7 +114,7 @@ impl<TW:TimeWindow> TimeSetFormat for TW
             iter.fold(format_timeslot(&first, timefmt),
                       |s,i| s + "U" + &format_timeslot(&i,timefmt))
         } else {
-           "{{}}".to_string() /* empty set */
+           "{}".to_string() /* empty set */
         }
     }
 }
-- 
2.43.0


From 06dd29e94e55c3a54f14a47a22038ad9eb522875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:23 +0000
Subject: [PATCH 28/50] fix: durations of exactly 1ms or 1us are written with
 their own unit

---
 src/wins/format.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wins/format.rs b/src/wins/format.rs
index 75c5204..51bd24a 100644
--- a/src/wins/format.rs
+++ b/src/wins/format.rs
@@ -53,11 +53,11 @@ fn format_duration(t: i64) -> String
     let ticks = concat_unit(ticks, TimeValue::from_secs, "s");
 
     let mut str = ticks.1;
-    if nanos > 1_000_000 {
+    if nanos >= 1_000_000 {
         str = format!("{}{}ms ", str, nanos/1_000_000);
         nanos %= 1_000_000;
     }
-    if nanos > 1_000 {
+    if nanos >= 1_000 {
         str = format!("{}{}us ", str, nanos/1_000);
         nanos %= 1_000;
     }
-- 
2.43.0


From 93e4806bcb535edb3ff8a32ea1e07d9c737ee6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:23 +0000
Subject: [PATCH 29/50] fix: formatted infinite time points are shown as
 infinite

---
 src/wins/format.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/wins/format.rs b/src/wins/format.rs
index 51bd24a..149aad4 100644
--- a/src/wins/format.rs
+++ b/src/wins/format.rs
@@ -13,18 +13,18 @@ pub trait TimePointFormat {
 impl TimePointFormat for TimeValue {
 
     fn format_timepoint(self, _timefmt: &str) -> String {
-        if self.is_positive() {
-            format_duration(self.as_ticks())
-        } else {
-            format!("- {}", &format_duration(-self.as_ticks()))
-        }
+        self.to_string()
     }
 }
 
 impl TimePointFormat for Timestamp {
 
     fn format_timepoint(self, timefmt: &str) -> String {
-        format_timestamp(self, timefmt).to_string()
+        if self.is_finite() {
+            format_timestamp(self, timefmt).to_string()
+        } else {
+            self.to_string()
+        }
     }
 }
 
-- 
2.43.0


From 13b285c5a051f295e9b2e36e56b4ee2a6de50872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 30/50] fix: a graph emptied by a fatal failure forgets its
 constraints

---
 src/graph/propagation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index 02ef878..6c444c0 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -165,7 +165,7 @@ impl TimeGraph
                     if val > *x { *x = val; }
                 }
                 if unsafe { self.lower(i,i) }.is_strictly_positive() {
-                    self.size = 0;
+                    self.resize(0);
                     return Err(TimeInconsistencyError::Fatal)
                 }
             }
-- 
2.43.0


From 57b2ce125249441e8481932daa4fd4b9b99413ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 31/50] fix: a constraint bringing in a new instant is
 propagated

---
 src/graph/propagation.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index 6c444c0..3e4e1c6 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -51,14 +51,16 @@ impl TimeGraph
         } else {
             let max = k.from().max(k.to());
             if self.size() <= max {
-                // si i ou j n'était pas dans le graphe, on n'aura rien à propager
-                self.resize(max + 1);
-                unsafe {
-                    // SAFETY: we have just resize the graph for that
-                    *self.lower_mut(k.from(), k.to()) = k.lower_bound();
-                    *self.lower_mut(k.to(), k.from()) = -k.upper_bound();
+                // si i = j, la contrainte doit autoriser une durée nulle
+                if k.from() == k.to()
+                    && (k.lower_bound().is_strictly_positive() || k.upper_bound().is_strictly_negative())
+                {
+                    return Err(TimeInconsistencyError::Recovered)
                 }
-                Ok(TimePropagation::Propagated)
+                // si i ou j n'était pas dans le graphe, on l'ajoute avant de propager
+                // (l'autre instant pouvant être déjà contraint)
+                self.resize(max + 1);
+                self.propagate(k).map(|_| TimePropagation::Propagated)
             } else {
                 unsafe {
                     // SAFETY: we check the size of the graph just before entering here
-- 
2.43.0


From eb1a30adf6f3fd73f0220d7c4a89c290e3e67420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:22 +0000
Subject: [PATCH 32/50] fix: an empty constraint in a batch is an inconsistency

---
 src/graph/propagation.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index 3e4e1c6..0c0d6fd 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -196,7 +196,12 @@ impl TimeGraph
                 }
             }
             _ => {
-                iter.for_each(|k| {
+                for k in iter {
+                        if k.is_empty() {
+                            // no possible recovery (some constraints could be already added)
+                            self.resize(0);
+                            return Err(TimeInconsistencyError::Fatal)
+                        }
                         let max = k.from().max(k.to());
                         if max >= self.size() { self.resize(max+1) }
 
@@ -209,7 +214,7 @@ impl TimeGraph
                         if *upper < -k.upper_bound() {
                             *upper = -k.upper_bound();
                         }
-                    });
+                    }
                 self.global_propagation()
             }
         }
-- 
2.43.0


From 67fe6b6489f2edf3df63eb11da692a47e3afaad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:22 +0000
Subject: [PATCH 33/50] fix: size hints of the constraint iterators

---
 src/graph/constraints.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/graph/constraints.rs b/src/graph/constraints.rs
index 229584b..a3ddc60 100644
--- a/src/graph/constraints.rs
+++ b/src/graph/constraints.rs
@@ -176,10 +176,11 @@ impl<'a> Iterator for TimeConstraintIter<'a> {
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>)
     {
-        let all_constraints = (self.graph.size() * self.graph.size() - self.graph.size())/2;
-        let previous_constraints =  (self.i * self.i - self.i)/2;
-        let max = all_constraints - previous_constraints + 1 - self.j;
-        (0, Some(max as usize))
+        // the remaining instants to iterate from i...
+        let from_i = self.graph.size().saturating_sub(self.j + 1) as usize;
+        // ...and the following ones
+        let next = self.graph.size().saturating_sub(self.i + 1) as usize;
+        (0, Some(if next == 0 { 0 } else { from_i + next * (next - 1) / 2 }))
     }
 }
 
@@ -232,10 +233,7 @@ impl<'a> Iterator for TimeConstraintFromIter<'a> {
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>)
     {
-        let all_constraints = (self.graph.size() * self.graph.size() - self.graph.size())/2;
-        let previous_constraints =  (self.i * self.i - self.i)/2;
-        let max = all_constraints - previous_constraints + 1 - self.j;
-        (0, Some(max as usize))
+        (0, Some(self.graph.size().saturating_sub(self.j) as usize))
     }
 }
 
-- 
2.43.0


From 4ac198586ad46df50b074eac4d68d3aa22a6d0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:22 +0000
Subject: [PATCH 34/50] fix: constraints from an instant are those with other
 constrained instants

---
 src/graph/constraints.rs | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/graph/constraints.rs b/src/graph/constraints.rs
index a3ddc60..8e8a8f3 100644
--- a/src/graph/constraints.rs
+++ b/src/graph/constraints.rs
@@ -208,25 +208,16 @@ impl<'a> Iterator for TimeConstraintFromIter<'a> {
             // this iterator is a FusedIterator
             None
         } else {
-            let current = TimeGraphConstraint {
-                from: self.i,
-                to: self.j,
-                graph: self.graph
-            };
-            loop { // search the next current
+            while self.j < self.graph.size() {
+                let to = self.j;
                 self.j += 1;
-
-                if self.j == self.graph.size() {
-                    self.i = self.graph.size();
-                    break;
-
-                } else if self.i != self.j &&
-                    (unsafe { !self.graph.lower(self.i,self.j).is_past_infinite() }
-                        || unsafe { !self.graph.lower(self.j,self.i).is_past_infinite() }) {
-                    break;
+                if self.i != to &&
+                    (unsafe { !self.graph.lower(self.i,to).is_past_infinite() }
+                        || unsafe { !self.graph.lower(to,self.i).is_past_infinite() }) {
+                    return Some(TimeGraphConstraint { from: self.i, to, graph: self.graph })
                 }
             }
-            Some(current)
+            None
         }
     }
 
-- 
2.43.0


From 8f24b86754222549a90276a88f214dc4b8b9b419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:48 +0000
Subject: [PATCH 35/50] fix: matrix indices of huge graphs do not wrap

---
 src/graph/propagation.rs |  4 ++--
 src/graph/storage.rs     | 24 ++++++++++++++----------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index 0c0d6fd..760a27e 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -59,7 +59,7 @@ impl TimeGraph
                 }
                 // si i ou j n'était pas dans le graphe, on l'ajoute avant de propager
                 // (l'autre instant pouvant être déjà contraint)
-                self.resize(max + 1);
+                self.resize(max.checked_add(1).expect("too many instants"));
                 self.propagate(k).map(|_| TimePropagation::Propagated)
             } else {
                 unsafe {
@@ -203,7 +203,7 @@ impl TimeGraph
                             return Err(TimeInconsistencyError::Fatal)
                         }
                         let max = k.from().max(k.to());
-                        if max >= self.size() { self.resize(max+1) }
+                        if max >= self.size() { self.resize(max.checked_add(1).expect("too many instants")) }
 
                         let lower = unsafe { self.lower_mut(k.from(), k.to()) };
                         if *lower < k.lower_bound() {
diff --git a/src/graph/storage.rs b/src/graph/storage.rs
index 0ed5877..1cdab41 100644
--- a/src/graph/storage.rs
+++ b/src/graph/storage.rs
@@ -36,7 +36,7 @@ impl TimeGraph {
     /// buth the impact of their propagation remains.
     pub fn resize(&mut self, n: Instant)
     {
-        self.data.resize((n * n) as usize, -TimeValue::INFINITE);
+        self.data.resize((n as usize) * (n as usize), -TimeValue::INFINITE);
         (self.size..n).for_each(|i| unsafe {
             // setting all constraint (i,i) to 0 (constraint from i to itseltf)
             *self.lower_mut(i,i) = TimeValue::default();
@@ -55,8 +55,8 @@ impl TimeGraph {
     {
        self.size = (0..self.size).rev()
             .find(|&i|
-                (i*i..=i*i+2*i).filter(|&x| x != i*i+i)
-                    .any(|x| unsafe { !self.data.get_unchecked(x as usize).is_past_infinite()})
+                { let i = i as usize; (i*i..=i*i+2*i).filter(move |&x| x != i*i+i) }
+                    .any(|x| unsafe { !self.data.get_unchecked(x).is_past_infinite()})
             ).map(|i| i+1)
             .unwrap_or(0);
         self.data.shrink_to_fit()
@@ -68,20 +68,22 @@ impl TimeGraph {
     ///
     /// If the current capacity is less than the lower limit, this is a no-op.
     #[inline]
-    pub fn shrink_to(&mut self, n: Instant) { self.data.shrink_to((n * n) as usize) }
+    pub fn shrink_to(&mut self, n: Instant) { self.data.shrink_to((n as usize) * (n as usize)) }
 
     #[inline]
     pub(super)
     unsafe fn lower(&self, i:Instant, j:Instant) -> TimeValue {
+        let (i, j) = (i as usize, j as usize);
         let ij = if i >= j { i*i + j } else { j*(j+2) - i };
-        *self.data.get_unchecked(ij as usize)
+        *self.data.get_unchecked(ij)
     }
 
     #[inline]
     pub(super)
     unsafe fn lower_mut(&mut self, i:Instant, j:Instant) -> &mut TimeValue {
+        let (i, j) = (i as usize, j as usize);
         let ij = if i >= j { i*i + j } else { j*(j+2) - i };
-        self.data.get_unchecked_mut(ij as usize)
+        self.data.get_unchecked_mut(ij)
     }
 
     #[inline]
@@ -92,18 +94,20 @@ impl TimeGraph {
             if i >= self.size() {
                 TimeInterval::all()
             } else {
+                let (i, j) = (i as usize, j as usize);
                 TimeInterval {
-                    lower: unsafe { *self.data.get_unchecked((i*i + j) as usize)},
-                    upper: - unsafe { *self.data.get_unchecked((i*(i+2) - j) as usize) },
+                    lower: unsafe { *self.data.get_unchecked(i*i + j)},
+                    upper: - unsafe { *self.data.get_unchecked(i*(i+2) - j) },
                 }
             }
         } else {
             if j >= self.size() {
                 TimeInterval::all()
             } else {
+                let (i, j) = (i as usize, j as usize);
                 TimeInterval {
-                    lower: unsafe { *self.data.get_unchecked((j*(j+2) - i) as usize) },
-                    upper: - unsafe { *self.data.get_unchecked( (j*j + i) as usize) },
+                    lower: unsafe { *self.data.get_unchecked(j*(j+2) - i) },
+                    upper: - unsafe { *self.data.get_unchecked(j*j + i) },
                 }
             }
         }
-- 
2.43.0


From a92b91d4c33dcd4ca6c57190aae6462733ea58bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:06 +0000
Subject: [PATCH 36/50] fix: scheduling is propagated until slots are stable,
 and detects when no slot remains

---
 src/graph/scheduler.rs | 50 +++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/src/graph/scheduler.rs b/src/graph/scheduler.rs
index 077e6ca..88190a4 100644
--- a/src/graph/scheduler.rs
+++ b/src/graph/scheduler.rs
@@ -107,9 +107,14 @@ impl TimeScheduler<'_> {
             } else if !tw.overlaps(self.schedule.get_unchecked(i as usize)) {
                 Err(TimeInconsistencyError::Recovered)
             } else {
+                let previous = self.schedule.clone();
                 *self.schedule.get_unchecked_mut(i as usize) &= tw;
-                self.propagate_scheduling(i);
-                Ok(TimePropagation::Propagated)
+                if self.propagate_scheduling(i) {
+                    Ok(TimePropagation::Propagated)
+                } else {
+                    self.schedule = previous;
+                    Err(TimeInconsistencyError::Recovered)
+                }
             }
         }
     }
@@ -123,22 +128,37 @@ impl TimeScheduler<'_> {
         self.retain(i, !tw)
     }
 
-    fn propagate_scheduling(&mut self, i: Instant)
+    /// Propagates the change of the slots of `i`
+    ///
+    /// As slots could be disjunctive, the propagation goes on until
+    /// all of them are stable. Returns `false` as soon as an instant
+    /// could not be scheduled any more.
+    fn propagate_scheduling(&mut self, i: Instant) -> bool
     {
         debug_assert!( i as usize <= self.schedule.len() );
-        unsafe {
-            self.constraints
-                .constraints_from(i)
-                .for_each(|k| {
-                    let j = k.to() as usize;
-                    *self.schedule.get_unchecked_mut(j) =
-                        self.schedule.get_unchecked(j).iter()
-                            .intersection(self.schedule.get_unchecked(i as usize)
-                                .iter()
-                                .translation(&TimeInterval::from(k)))
-                            .collect();
-                });
+        let mut changed = vec![i];
+        while let Some(i) = changed.pop() {
+            for k in self.constraints.constraints_from(i) {
+                let to = k.to();
+                let j = to as usize;
+                // SAFETY: there is one slot for each instant of the graph
+                let slots: TimeSlots = unsafe {
+                    self.schedule.get_unchecked(j).iter()
+                        .intersection(self.schedule.get_unchecked(i as usize)
+                            .iter()
+                            .translation(&TimeInterval::from(k)))
+                        .collect()
+                };
+                if slots.is_empty() {
+                    return false
+                }
+                if slots != self.schedule[j] {
+                    self.schedule[j] = slots;
+                    if !changed.contains(&to) { changed.push(to) }
+                }
+            }
         }
+        true
     }
 }
 
-- 
2.43.0


From 844826f13f55ecfde2deebdcdb79c9bbc21b301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:06 +0000
Subject: [PATCH 37/50] fix: no date before -oo or after +oo for deadlines and
 startlines

---
 src/graph/scheduler.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph/scheduler.rs b/src/graph/scheduler.rs
index 88190a4..802833d 100644
--- a/src/graph/scheduler.rs
+++ b/src/graph/scheduler.rs
@@ -56,7 +56,7 @@ impl TimeScheduler<'_> {
     pub fn set_deadline(&mut self, deadline: Timestamp) -> TimePropagationResult
     {
         // first, check if this deadline is compatible
-        if self.schedule.iter().any(|tw| tw.lower_bound() > deadline) {
+        if self.schedule.iter().any(|tw| deadline.is_past_infinite() || tw.lower_bound() > deadline) {
             Err(TimeInconsistencyError::Recovered)
         } else {
             // we know that the propagation will succeed
@@ -75,7 +75,7 @@ impl TimeScheduler<'_> {
     pub fn set_startline(&mut self, startline: Timestamp) -> TimePropagationResult
     {
         // first, check if this startline is compatible
-        if self.schedule.iter().any(|tw| tw.upper_bound() < startline) {
+        if self.schedule.iter().any(|tw| startline.is_future_infinite() || tw.upper_bound() < startline) {
             Err(TimeInconsistencyError::Recovered)
         } else {
             // we know that the propagation will succeed
-- 
2.43.0


From f0b5683b4bebd924a62a9db4d39eea4a78f1a191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:26 +0000
Subject: [PATCH 38/50] fix: backward sequences start at their date

---
 src/seq/backward.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seq/backward.rs b/src/seq/backward.rs
index d624bd1..7232f90 100644
--- a/src/seq/backward.rs
+++ b/src/seq/backward.rs
@@ -13,7 +13,7 @@ impl TimeSequence for TimeSeqBackward
     fn new<T:Timestamped>(t: T, delta: TimeValue) -> Self
     {
         assert!( delta.is_strictly_positive(), "sequence interval should be strictly positive" );
-        let t = t.timestamp() - delta; // so we will start at t
+        let t = t.timestamp() + delta; // so we will start at t
         assert!( t.is_finite(), "infinite start value");
         Self { t, step: delta }
     }
-- 
2.43.0


From c4be76c7229fa5257ee16391ec36829efe877a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:26 +0000
Subject: [PATCH 39/50] fix: length of the sequences

---
 src/seq/backward.rs | 8 +++-----
 src/seq/forward.rs  | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/seq/backward.rs b/src/seq/backward.rs
index 7232f90..7686cc4 100644
--- a/src/seq/backward.rs
+++ b/src/seq/backward.rs
@@ -31,11 +31,9 @@ impl TimeSequence for TimeSeqBackward
 
     fn len(&self) -> usize
     {
-        if self.t.0.is_strictly_negative() {
-            (self.t.0.as_ticks() - i64::MIN) as usize / self.step.as_ticks() as usize
-        } else {
-            self.t.0.as_ticks() as usize + i64::MAX as usize + 1 / self.step.as_ticks() as usize
-        }
+        // from the previous of t up to the least finite timestamp
+        let ticks = self.t.0.as_ticks() as i128 + (i64::MAX - 1) as i128;
+        if ticks <= 0 { 0 } else { (ticks / self.step.as_ticks() as i128) as usize }
     }
 }
 
diff --git a/src/seq/forward.rs b/src/seq/forward.rs
index d1469c0..0b19ff3 100644
--- a/src/seq/forward.rs
+++ b/src/seq/forward.rs
@@ -32,11 +32,9 @@ impl TimeSequence for TimeSeqForward
 
     fn len(&self) -> usize
     {
-        if self.t.0.is_positive() {
-            (i64::MAX - self.t.0.as_ticks()) as usize / self.step.as_ticks() as usize
-        } else {
-            (i64::MAX as usize) + (-self.t.0.as_ticks() as usize) / self.step.as_ticks() as usize
-        }
+        // from the next of t up to the greatest finite timestamp
+        let ticks = (i64::MAX - 1) as i128 - self.t.0.as_ticks() as i128;
+        if ticks <= 0 { 0 } else { (ticks / self.step.as_ticks() as i128) as usize }
     }
 }
 
-- 
2.43.0


From 6205a9063d44a70c07924d9205a59d21936c9358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:27 +0000
Subject: [PATCH 40/50] fix: jumps in sequences are those of stepping one by
 one

---
 src/seq/backward.rs | 14 +++++++++++---
 src/seq/forward.rs  | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/seq/backward.rs b/src/seq/backward.rs
index 7686cc4..610a90d 100644
--- a/src/seq/backward.rs
+++ b/src/seq/backward.rs
@@ -66,18 +66,26 @@ impl Iterator for TimeSeqBackward {
     fn last(self) -> Option<Self::Item>
     {
         let n = self.len();
-        (n > 0).then_some(self.t - n*self.step)
+        (n > 0).then(|| self.after(n))
     }
 
 
     fn nth(&mut self, n: usize) -> Option<Self::Item>
     {
-        if self.len() < n {
+        if self.len() <= n {
             self.t = -Timestamp::INFINITE;
             None
         } else {
-            self.t -= self.step * n;
+            self.t = self.after(n + 1);
             Some(self.t)
         }
     }
+}
+
+impl TimeSeqBackward {
+    // the timestamp after n steps (n should not exceed the length)
+    fn after(&self, n: usize) -> Timestamp {
+        let ticks = self.t.0.as_ticks() as i128 - (n as i128) * (self.step.as_ticks() as i128);
+        Timestamp(TimeValue::from_ticks(ticks as i64))
+    }
 }
\ No newline at end of file
diff --git a/src/seq/forward.rs b/src/seq/forward.rs
index 0b19ff3..e04fae1 100644
--- a/src/seq/forward.rs
+++ b/src/seq/forward.rs
@@ -67,18 +67,26 @@ impl Iterator for TimeSeqForward {
     fn last(self) -> Option<Self::Item>
     {
         let n = self.len();
-        (n > 0).then_some(self.t + n*self.step)
+        (n > 0).then(|| self.after(n))
     }
 
 
     fn nth(&mut self, n: usize) -> Option<Self::Item>
     {
-        if self.len() < n {
+        if self.len() <= n {
             self.t = Timestamp::INFINITE;
             None
         } else {
-            self.t += self.step * n;
+            self.t = self.after(n + 1);
             Some(self.t)
         }
     }
+}
+
+impl TimeSeqForward {
+    // the timestamp after n steps (n should not exceed the length)
+    fn after(&self, n: usize) -> Timestamp {
+        let ticks = self.t.0.as_ticks() as i128 + (n as i128) * (self.step.as_ticks() as i128);
+        Timestamp(TimeValue::from_ticks(ticks as i64))
+    }
 }
\ No newline at end of file
-- 
2.43.0


From 3a530d4d40ce566a5db1cd91a23091d9e83376d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:06 +0000
Subject: [PATCH 41/50] fix: instants of a constraint are read only once before
 unchecked accesses

---
 src/graph/propagation.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index 760a27e..f7c4e70 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -2,7 +2,7 @@ use std::error::Error;
 use std::fmt;
 use std::mem::swap;
 use crate::graph::{Instant, TimeConstraint, TimeGraph};
-use crate::TimeValue;
+use crate::{TimeBounds, TimeSpan, TimeValue};
 
 pub type TimePropagationResult = Result<TimePropagation,TimeInconsistencyError>;
 
@@ -46,6 +46,8 @@ impl TimeGraph
 {
     pub fn propagate<K:TimeConstraint>(&mut self, k: K) -> TimePropagationResult
     {
+        // bounds checking is safe only if the instants never change (and it depends on user traits)
+        let k = ((k.from(), k.to()), TimeSpan::from(k));
         if k.is_empty() {
             Err(TimeInconsistencyError::Recovered)
         } else {
@@ -197,6 +199,8 @@ impl TimeGraph
             }
             _ => {
                 for k in iter {
+                        // bounds checking is safe only if the instants never change (and it depends on user traits)
+                        let k = ((k.from(), k.to()), TimeSpan::from(k));
                         if k.is_empty() {
                             // no possible recovery (some constraints could be already added)
                             self.resize(0);
-- 
2.43.0


From 61da6c9ba8c3231a004ee243f135078f98387d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:09 +0000
Subject: [PATCH 42/50] fix: ranges which hold no finite instant are empty

---
 src/ops/range.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/ops/range.rs b/src/ops/range.rs
index 6acb40f..11ea9fe 100644
--- a/src/ops/range.rs
+++ b/src/ops/range.rs
@@ -7,55 +7,55 @@ use crate::iter::*;
 impl<T:TimePoint> TimeBounds for Range<T>
 {
     type TimePoint = T;
-    #[inline] fn is_empty(&self) -> bool { Range::is_empty(self) }
-    #[inline] fn is_bounded(&self) -> bool { !self.is_empty() && self.lower_bound().is_finite() && self.upper_bound().is_finite() }
-    #[inline] fn is_low_bounded(&self) -> bool { !self.is_empty() && self.lower_bound().is_finite() }
-    #[inline] fn is_up_bounded(&self) -> bool { !self.is_empty() && self.upper_bound().is_finite()  }
-    #[inline] fn lower_bound(&self) -> Self::TimePoint { if self.is_empty() { T::INFINITE } else { self.start } }
-    #[inline] fn upper_bound(&self) -> Self::TimePoint { if self.is_empty() { -T::INFINITE} else { self.end.just_before() } }// not inclusive
+    #[inline] fn is_empty(&self) -> bool { Range::is_empty(self) || self.end.just_before().is_past_infinite() }
+    #[inline] fn is_bounded(&self) -> bool { !TimeBounds::is_empty(self) && self.lower_bound().is_finite() && self.upper_bound().is_finite() }
+    #[inline] fn is_low_bounded(&self) -> bool { !TimeBounds::is_empty(self) && self.lower_bound().is_finite() }
+    #[inline] fn is_up_bounded(&self) -> bool { !TimeBounds::is_empty(self) && self.upper_bound().is_finite()  }
+    #[inline] fn lower_bound(&self) -> Self::TimePoint { if TimeBounds::is_empty(self) { T::INFINITE } else { self.start } }
+    #[inline] fn upper_bound(&self) -> Self::TimePoint { if TimeBounds::is_empty(self) { -T::INFINITE} else { self.end.just_before() } }// not inclusive
 }
 
 impl<T:TimePoint> TimeBounds for RangeFrom<T>
 {
     type TimePoint = T;
-    #[inline] fn is_empty(&self) -> bool { false }
+    #[inline] fn is_empty(&self) -> bool { self.start.is_future_infinite() }
     #[inline] fn is_bounded(&self) -> bool { false }
     #[inline] fn is_low_bounded(&self) -> bool { self.lower_bound().is_finite() }
     #[inline] fn is_up_bounded(&self) -> bool { false }
     #[inline] fn lower_bound(&self) -> Self::TimePoint { self.start }
-    #[inline] fn upper_bound(&self) -> Self::TimePoint { Self::TimePoint::INFINITE }
+    #[inline] fn upper_bound(&self) -> Self::TimePoint { if TimeBounds::is_empty(self) { -T::INFINITE } else { T::INFINITE } }
 }
 
 impl<T:TimePoint> TimeBounds for RangeInclusive<T>
 {
     type TimePoint = T;
-    #[inline] fn is_empty(&self) -> bool { RangeInclusive::is_empty(self) }
-    #[inline] fn is_bounded(&self) -> bool { !self.is_empty() && self.lower_bound().is_finite() && self.upper_bound().is_finite() }
-    #[inline] fn is_low_bounded(&self) -> bool { !self.is_empty() && self.lower_bound().is_finite() }
-    #[inline] fn is_up_bounded(&self) -> bool { !self.is_empty() && self.upper_bound().is_finite()  }
-    #[inline] fn lower_bound(&self) -> Self::TimePoint { if self.is_empty() { T::INFINITE} else { *self.start() } }
-    #[inline] fn upper_bound(&self) -> Self::TimePoint { if self.is_empty() { -T::INFINITE } else { *self.end() } } // inclusive
+    #[inline] fn is_empty(&self) -> bool { RangeInclusive::is_empty(self) || self.start().is_future_infinite() || self.end().is_past_infinite() }
+    #[inline] fn is_bounded(&self) -> bool { !TimeBounds::is_empty(self) && self.lower_bound().is_finite() && self.upper_bound().is_finite() }
+    #[inline] fn is_low_bounded(&self) -> bool { !TimeBounds::is_empty(self) && self.lower_bound().is_finite() }
+    #[inline] fn is_up_bounded(&self) -> bool { !TimeBounds::is_empty(self) && self.upper_bound().is_finite()  }
+    #[inline] fn lower_bound(&self) -> Self::TimePoint { if TimeBounds::is_empty(self) { T::INFINITE} else { *self.start() } }
+    #[inline] fn upper_bound(&self) -> Self::TimePoint { if TimeBounds::is_empty(self) { -T::INFINITE } else { *self.end() } } // inclusive
 }
 
 impl<T:TimePoint> TimeBounds for RangeTo<T>
 {
     type TimePoint = T;
-    #[inline] fn is_empty(&self) -> bool { false }
+    #[inline] fn is_empty(&self) -> bool { self.upper_bound().is_past_infinite() }
     #[inline] fn is_bounded(&self) -> bool { false }
     #[inline] fn is_low_bounded(&self) -> bool { false }
     #[inline] fn is_up_bounded(&self) -> bool { self.upper_bound().is_finite()  }
-    #[inline] fn lower_bound(&self) -> Self::TimePoint { - Self::TimePoint::INFINITE }
+    #[inline] fn lower_bound(&self) -> Self::TimePoint { if TimeBounds::is_empty(self) { T::INFINITE } else { -T::INFINITE } }
     #[inline] fn upper_bound(&self) -> Self::TimePoint { self.end.just_before() } // not inclusive
 }
 
 impl<T:TimePoint> TimeBounds for RangeToInclusive<T>
 {
     type TimePoint = T;
-    #[inline] fn is_empty(&self) -> bool { false }
+    #[inline] fn is_empty(&self) -> bool { self.upper_bound().is_past_infinite() }
     #[inline] fn is_bounded(&self) -> bool { false }
     #[inline] fn is_low_bounded(&self) -> bool { false }
     #[inline] fn is_up_bounded(&self) -> bool { self.upper_bound().is_finite()  }
-    #[inline] fn lower_bound(&self) -> Self::TimePoint { - Self::TimePoint::INFINITE }
+    #[inline] fn lower_bound(&self) -> Self::TimePoint { if TimeBounds::is_empty(self) { T::INFINITE } else { -T::INFINITE } }
     #[inline] fn upper_bound(&self) -> Self::TimePoint { self.end } // inclusive
 }
 
-- 
2.43.0


From d5fc6e81b9577aba5974ea0073166bf5c5a4a9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:09 +0000
Subject: [PATCH 43/50] fix: centering on or enlarging to an infinite bound
 gives no invalid interval

---
 src/wins/timeinterval.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/wins/timeinterval.rs b/src/wins/timeinterval.rs
index c47fc9a..9fc49f7 100644
--- a/src/wins/timeinterval.rs
+++ b/src/wins/timeinterval.rs
@@ -160,19 +160,15 @@ impl<T:TimePoint> TimeInterval<T>
     pub fn centered(origin: T, delta: TimeValue) -> Option<Self>
     {
         // if delta is negative, we could be surprised...
-        delta.is_positive().then_some(Self {
-            lower: origin - delta,
-            upper: origin + delta,
-        })
+        delta.is_positive().then(|| Self::new(origin - delta, origin + delta))
     }
 
     #[inline]
     pub fn enlarge(&self, delta: TimeValue) -> Option<Self>
     {
-        let lower = self.lower - delta;
-        let upper = self.upper + delta;
         // if delta is negative, we could be surprised...
-        (lower <= upper).then_some(Self { lower, upper } )
+        let enlarged = Self::new(self.lower - delta, self.upper + delta);
+        (!enlarged.is_empty()).then_some(enlarged)
     }
 
 }
-- 
2.43.0


From ed92e7e44efc4f70099fc7eec9d9e613856c255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:50 +0000
Subject: [PATCH 44/50] fix: nothing is left of a window truncated before +oo
 or after -oo

---
 src/wins/timeinterval.rs | 4 ++--
 src/wins/timeset.rs      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wins/timeinterval.rs b/src/wins/timeinterval.rs
index 9fc49f7..689a6e1 100644
--- a/src/wins/timeinterval.rs
+++ b/src/wins/timeinterval.rs
@@ -127,7 +127,7 @@ impl<T:TimePoint> TimeTruncation for TimeInterval<T>
         if lower <= self.lower {
             false
         } else {
-            if self.upper < lower {
+            if self.upper < lower || lower.is_future_infinite() {
                 *self = Self::empty();
             } else {
                 self.lower = lower;
@@ -142,7 +142,7 @@ impl<T:TimePoint> TimeTruncation for TimeInterval<T>
         if self.upper <= upper {
             false
         } else {
-            if upper < self.lower {
+            if upper < self.lower || upper.is_past_infinite() {
                 *self = Self::empty();
             } else {
                 self.upper = upper;
diff --git a/src/wins/timeset.rs b/src/wins/timeset.rs
index 0471fce..b4184bf 100644
--- a/src/wins/timeset.rs
+++ b/src/wins/timeset.rs
@@ -176,7 +176,7 @@ impl<T:TimePoint> TimeTruncation for TimeSet<T>
     /// Returns `true` if something changed
     fn truncate_before(&mut self, lower: T) -> bool
     {
-        match self.0.iter().position(|i| i.upper_bound() >= lower)
+        match self.0.iter().position(|i| i.upper_bound() >= lower && !lower.is_future_infinite())
         {
             Some(0) => {
                 // only the first element could change
@@ -196,7 +196,7 @@ impl<T:TimePoint> TimeTruncation for TimeSet<T>
     /// Returns `true` if something changed
     fn truncate_after(&mut self, upper: T) -> bool
     {
-        match self.0.iter().rposition(|i| i.lower_bound() <= upper)
+        match self.0.iter().rposition(|i| i.lower_bound() <= upper && !upper.is_past_infinite())
         {
             Some(pos) if pos+1 == self.0.len() => {
                 // only the last element could change
-- 
2.43.0


From 600e9095163976d5713b473dc599085880e3e455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:50 +0000
Subject: [PATCH 45/50] fix: an infinite time point gives no interval to a set
 or an iterator

---
 src/wins/mod.rs     | 10 ++--------
 src/wins/timeset.rs |  6 +-----
 2 files changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/wins/mod.rs b/src/wins/mod.rs
index 73a72d7..003146c 100644
--- a/src/wins/mod.rs
+++ b/src/wins/mod.rs
@@ -134,14 +134,8 @@ impl<TW:TimeConvex> TimeWindow for TW {
     #[inline]
     fn iter(&self) -> Self::ConvexIter
     {
-        if self.is_empty() {
-            None.into_iter()
-        } else {
-            Some(TimeInterval {
-                lower:self.lower_bound(),
-                upper:self.upper_bound()
-            }).into_iter()
-        }
+        let tw = TimeInterval::new(self.lower_bound(), self.upper_bound());
+        (!tw.is_empty()).then_some(tw).into_iter()
     }
 }
 
diff --git a/src/wins/timeset.rs b/src/wins/timeset.rs
index b4184bf..33103c8 100644
--- a/src/wins/timeset.rs
+++ b/src/wins/timeset.rs
@@ -162,11 +162,7 @@ impl<T,TW> From<TW> for TimeSet<T>
 {
     #[inline] fn from(tw: TW) -> Self
     {
-        if tw.is_empty() {
-            TimeSet::empty()
-        } else {
-            Self(vec![TimeInterval { lower: tw.lower_bound(), upper: tw.upper_bound()}])
-        }
+        Self::convex(tw.lower_bound(), tw.upper_bound())
     }
 }
 
-- 
2.43.0


From 9c051013d4ac4d055b90840f3eb9f57da7024244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:02 +0000
Subject: [PATCH 46/50] fix: union of an interval with an infinite time point
 is the interval

---
 src/ops/union.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ops/union.rs b/src/ops/union.rs
index e03fe06..197b8dd 100644
--- a/src/ops/union.rs
+++ b/src/ops/union.rs
@@ -36,6 +36,7 @@ impl<T:TimePoint,TW> BitOr<TW> for &TimeInterval<T>
 
     fn bitor(self, tw: TW) -> Self::Output
     {
+        let tw: TimeInterval<T> = tw.into();
         if self.is_empty() {
             TimeSet::from(tw)
 
@@ -43,10 +44,10 @@ impl<T:TimePoint,TW> BitOr<TW> for &TimeInterval<T>
             (*self).into()
 
         } else if tw.upper_bound() < self.lower.just_before() {
-            TimeSet(vec![tw.into(), *self])
+            TimeSet(vec![tw, *self])
 
         } else if self.upper < tw.lower_bound().just_before() {
-            TimeSet(vec![*self, tw.into()])
+            TimeSet(vec![*self, tw])
 
         } else {
             TimeSet(vec![
-- 
2.43.0


From 70b7e5d5eebeb4ca11020689623a7e3a72abe4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:01 +0000
Subject: [PATCH 47/50] fix: a batch of already implied constraints reports
 that nothing changed

---
 src/graph/propagation.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index f7c4e70..953a36c 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -198,6 +198,7 @@ impl TimeGraph
                 }
             }
             _ => {
+                let mut change = false;
                 for k in iter {
                         // bounds checking is safe only if the instants never change (and it depends on user traits)
                         let k = ((k.from(), k.to()), TimeSpan::from(k));
@@ -207,19 +208,28 @@ impl TimeGraph
                             return Err(TimeInconsistencyError::Fatal)
                         }
                         let max = k.from().max(k.to());
-                        if max >= self.size() { self.resize(max.checked_add(1).expect("too many instants")) }
+                        if max >= self.size() {
+                            self.resize(max.checked_add(1).expect("too many instants"));
+                            change = true;
+                        }
 
                         let lower = unsafe { self.lower_mut(k.from(), k.to()) };
                         if *lower < k.lower_bound() {
                             *lower = k.lower_bound();
+                            change = true;
                         }
                         // SAFETY: if lower exists (checked just above), the upper does...
                         let upper = unsafe { self.lower_mut(k.to(), k.from()) };
                         if *upper < -k.upper_bound() {
                             *upper = -k.upper_bound();
+                            change = true;
                         }
                     }
-                self.global_propagation()
+                if change {
+                    self.global_propagation()
+                } else {
+                    Ok(TimePropagation::Unchanged)
+                }
             }
         }
     }
-- 
2.43.0


From 8155244f76e7af06e99802ae68b6c0c3cc671c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:40 +0000
Subject: [PATCH 48/50] fix: complement of an iterator over adjacent intervals

---
 src/iter/compl.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/iter/compl.rs b/src/iter/compl.rs
index c6ee3dc..02097a9 100644
--- a/src/iter/compl.rs
+++ b/src/iter/compl.rs
@@ -67,13 +67,11 @@ impl<I:TimeConvexIterator> Iterator for IterComplementary<I>
         }
         for next in self.iter.by_ref()
         {
-            if self.lower < next.lower_bound() {
-                let result = TimeInterval {
-                    lower: self.lower,
-                    upper: next.lower_bound().just_before()
-                };
-                self.lower = next.upper_bound().just_after();
-                return Some(result);
+            // nothing is to be yielded between two adjacent intervals
+            let lower = self.lower;
+            self.lower = next.upper_bound().just_after();
+            if lower < next.lower_bound() {
+                return Some(TimeInterval { lower, upper: next.lower_bound().just_before() });
             }
         }
         if self.lower.is_future_infinite() {
@@ -90,7 +88,7 @@ impl<I:TimeConvexIterator> Iterator for IterComplementary<I>
 
     fn size_hint(&self) -> (usize, Option<usize>)
     {
-        let (min,max) = self.iter.size_hint();
-        (min.saturating_sub(1), max.and_then(|i| i.checked_add(1)))
+        // (adjacent intervals give nothing, so there is no useful minimum)
+        (0, self.iter.size_hint().1.and_then(|i| i.checked_add(1)))
     }
 }
-- 
2.43.0


From 0c7c88cb7dd12ce5a26fca39595ad15d300d8b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:33 +0000
Subject: [PATCH 49/50] fix: lazy union ends with its unbounded interval
 instead of draining the other operand

The union of an interval which goes on up to +oo with an endless iterator
never yielded its last interval: it went on merging the intervals of the
other operand, though nothing may follow.
---
 src/iter/union.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/iter/union.rs b/src/iter/union.rs
index d920521..cee2ed8 100644
--- a/src/iter/union.rs
+++ b/src/iter/union.rs
@@ -95,6 +95,12 @@ impl<I,J> IterUnion<I,J>
     fn new(i:I, j:J) -> Self {
         Self { i: i.fuse(), j: j.fuse(), state: UnionState::Init, tmp:TimeInterval::all() }
     }
+
+    /// Ends with the pending interval: nothing could follow it, even if there remain some intervals to merge.
+    fn ending(&mut self) -> Option<TimeInterval<I::TimePoint>> {
+        self.state = UnionState::End;
+        Some(self.tmp)
+    }
 }
 
 
@@ -136,6 +142,7 @@ impl<I,J> Iterator for IterUnion<I,J>
                             //=>tmp:  [---------------------]    or    [----------------------]
                             self.state = UnionState::WaitI;
                             self.tmp = TimeInterval { lower: i.lower.min(j.lower), upper: j.upper };
+                            if self.tmp.upper.is_future_infinite() { return self.ending(); }
                         },
                         (Some(i), Some(j)) => {
                             // i:     [------------------]      or           [----------------]
@@ -143,6 +150,7 @@ impl<I,J> Iterator for IterUnion<I,J>
                             //=>tmp   [------------------]      or     [----------------------]
                             self.state = UnionState::WaitJ;
                             self.tmp = TimeInterval { lower: i.lower.min(j.lower), upper: i.upper };
+                            if self.tmp.upper.is_future_infinite() { return self.ending(); }
                         },
                     }
                 }
@@ -172,6 +180,7 @@ impl<I,J> Iterator for IterUnion<I,J>
                             // tmp:                [--------]    or    [----------------------]
                             //=>tmp:  [---------------------]    or    [----------------------]
                             if self.tmp.lower > i.lower { self.tmp.lower = i.lower; }
+                            if self.tmp.upper.is_future_infinite() { return self.ending(); }
                         },
                         Some(i) => {
                             // i:     [------------------]      or           [----------------]
@@ -180,6 +189,7 @@ impl<I,J> Iterator for IterUnion<I,J>
                             self.state = UnionState::WaitJ;
                             if self.tmp.lower > i.lower { self.tmp.lower = i.lower; }
                             self.tmp.upper = i.upper;
+                            if self.tmp.upper.is_future_infinite() { return self.ending(); }
                         },
                     }
                 }
@@ -209,6 +219,7 @@ impl<I,J> Iterator for IterUnion<I,J>
                             // j:     [------------------]       or           [-----------]
                             //=>tmp:  [---------------------]    or    [----------------------]
                             if self.tmp.lower > j.lower { self.tmp.lower = j.lower; }
+                            if self.tmp.upper.is_future_infinite() { return self.ending(); }
                         }
                         Some(j) => {
                             // tmp:         [--------]          or     [------------------]
@@ -217,6 +228,7 @@ impl<I,J> Iterator for IterUnion<I,J>
                             self.state = UnionState::WaitI;
                             if self.tmp.lower > j.lower { self.tmp.lower = j.lower; }
                             self.tmp.upper = j.upper;
+                            if self.tmp.upper.is_future_infinite() { return self.ending(); }
                         }
                     }
                 }
-- 
2.43.0


From 96010596e9c60ba8958cf0395e7d4de774c78221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:19 +0000
Subject: [PATCH 50/50] fix: the bounds of an empty window are undefined and
 never relied upon

---
 src/graph/mod.rs      | 7 ++++++-
 src/ops/intersect.rs  | 2 ++
 src/relns/contain.rs  | 4 +++-
 src/relns/ordering.rs | 2 ++
 src/wins/mod.rs       | 4 ++++
 src/wins/timeset.rs   | 2 ++
 6 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/graph/mod.rs b/src/graph/mod.rs
index 35d4e63..3992e70 100644
--- a/src/graph/mod.rs
+++ b/src/graph/mod.rs
@@ -108,7 +108,10 @@ pub trait TimeConstraint: TimeConvex<TimePoint=TimeValue> {
 
     fn equiv<K: TimeConstraint>(&self, k: &K) -> bool
     {
-        if self.from() == k.from() {
+        if self.is_empty() != k.is_empty() {
+            // (the bounds of an empty window are undefined)
+            false
+        } else if self.from() == k.from() {
             self.to() == k.to() && self.lower_bound() == k.lower_bound() && self.upper_bound() == k.upper_bound()
         } else if self.from() == k.to() {
             self.to() == k.from() && self.lower_bound() == -k.upper_bound() && self.upper_bound() == -k.lower_bound()
@@ -122,6 +125,8 @@ impl<K:TimeConstraint> From<K> for TimeSpan
 {
     #[inline]
     fn from(k: K) -> Self {
+        // (the bounds of an empty window are undefined)
+        if k.is_empty() { return TimeInterval::empty() }
         TimeInterval { lower: k.lower_bound(), upper: k.upper_bound() }
     }
 }
diff --git a/src/ops/intersect.rs b/src/ops/intersect.rs
index b3ed314..3ad8531 100644
--- a/src/ops/intersect.rs
+++ b/src/ops/intersect.rs
@@ -58,6 +58,8 @@ impl<T:TimePoint,TW> BitAndAssign<TW> for TimeSet<T>
     where TW: TimeConvex<TimePoint=T>
 {
     fn bitand_assign(&mut self, tw: TW) {
+        // (the bounds of an empty window are undefined)
+        if tw.is_empty() { return self.0.clear() }
         let _ = self.truncate_after(tw.upper_bound());
         let _ = self.truncate_before(tw.lower_bound());
     }
diff --git a/src/relns/contain.rs b/src/relns/contain.rs
index 5cdf087..508fd9f 100644
--- a/src/relns/contain.rs
+++ b/src/relns/contain.rs
@@ -11,7 +11,9 @@ impl<TW1:TimeConvex,TW2> TimeContaining<TW2> for TW1
 {
     #[inline]
     fn contains(&self, rhs: &TW2) -> bool {
-        self.lower_bound() <= rhs.lower_bound() && rhs.upper_bound() <= self.upper_bound()
+        // (the bounds of an empty window are undefined)
+        rhs.is_empty() || (!self.is_empty()
+            && self.lower_bound() <= rhs.lower_bound() && rhs.upper_bound() <= self.upper_bound())
     }
 }
 
diff --git a/src/relns/ordering.rs b/src/relns/ordering.rs
index 41c523d..88cff69 100644
--- a/src/relns/ordering.rs
+++ b/src/relns/ordering.rs
@@ -8,6 +8,8 @@ impl<T:TimePoint,TW> PartialEq<TW> for TimeInterval<T>
 {
     #[inline]
     fn eq(&self, other: &TW) -> bool {
+        // (the bounds of an empty window are undefined)
+        if other.is_empty() { return self.is_empty() }
         other.is_convex()
             && self.lower == other.lower_bound()
             && self.upper == other.upper_bound()
diff --git a/src/wins/mod.rs b/src/wins/mod.rs
index 003146c..386a056 100644
--- a/src/wins/mod.rs
+++ b/src/wins/mod.rs
@@ -97,6 +97,8 @@ pub trait TimeWindow : TimeBounds {
     ///
     /// If the time window is already convex, then the envelope is itself.
     #[inline] fn convex_envelope(&self) -> TimeInterval<Self::TimePoint> {
+        // (the bounds of an empty window are undefined)
+        if self.is_empty() { return TimeInterval::empty() }
         TimeInterval { lower: self.lower_bound(), upper: self.upper_bound() }
     }
 
@@ -134,6 +136,8 @@ impl<TW:TimeConvex> TimeWindow for TW {
     #[inline]
     fn iter(&self) -> Self::ConvexIter
     {
+        // (the bounds of an empty window are undefined)
+        if self.is_empty() { return None.into_iter() }
         let tw = TimeInterval::new(self.lower_bound(), self.upper_bound());
         (!tw.is_empty()).then_some(tw).into_iter()
     }
diff --git a/src/wins/timeset.rs b/src/wins/timeset.rs
index 33103c8..654682f 100644
--- a/src/wins/timeset.rs
+++ b/src/wins/timeset.rs
@@ -162,6 +162,8 @@ impl<T,TW> From<TW> for TimeSet<T>
 {
     #[inline] fn from(tw: TW) -> Self
     {
+        // (the bounds of an empty window are undefined)
+        if tw.is_empty() { return Self::empty() }
         Self::convex(tw.lower_bound(), tw.upper_bound())
     }
 }
-- 
2.43.0

