From 975175c13d987decdc7d5edfc6401449efb2b258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:46 +0000
Subject: [PATCH 01/13] fix: TAI-UTC step takes effect in its own month

delta_at() skipped the table entry of the month of the date itself, so every
date in the month a leap second took effect got the previous value (36 s
rather than 37 s for January 2017). SOFA's dat.for takes the last entry
whose month is not after the date.
---
 crates/tofas/src/delta_at.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tofas/src/delta_at.rs b/crates/tofas/src/delta_at.rs
index e02c44c..93592bc 100644
--- a/crates/tofas/src/delta_at.rs
+++ b/crates/tofas/src/delta_at.rs
@@ -84,7 +84,7 @@ impl DeltaAt for GregorianDate {
 	let idat =
 	    DAT_DATA
 	    .iter()
-	    .rposition(|DatData { year,month,.. }| 12*year + month < m)
+	    .rposition(|DatData { year,month,.. }| 12*year + month <= m)
 	    .unwrap_or(0);
 
 	let DatData { dat,drift,.. } = DAT_DATA[idat];
-- 
2.43.0


From a4da9d9e2be4c445641685b43253d5c6ba990140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:46 +0000
Subject: [PATCH 02/13] fix: delta_at overflows for far-future years

GregorianDate::new accepts any year from -4799 up; 12*year overflowed i32.
---
 crates/tofas/src/delta_at.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tofas/src/delta_at.rs b/crates/tofas/src/delta_at.rs
index 93592bc..a726e7d 100644
--- a/crates/tofas/src/delta_at.rs
+++ b/crates/tofas/src/delta_at.rs
@@ -79,12 +79,12 @@ impl DeltaAt for GregorianDate {
 	    return Ok(None);
 	}
 
-	let m = 12*iy + im;
+	let m = 12*iy as i64 + im as i64;
 
 	let idat =
 	    DAT_DATA
 	    .iter()
-	    .rposition(|DatData { year,month,.. }| 12*year + month <= m)
+	    .rposition(|&DatData { year,month,.. }| 12*year as i64 + month as i64 <= m)
 	    .unwrap_or(0);
 
 	let DatData { dat,drift,.. } = DAT_DATA[idat];
-- 
2.43.0


From 93e9933326f6a6f4a12d8f99b4262545092f4373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:46 +0000
Subject: [PATCH 03/13] fix: delta_at accepts a NaN fraction of day

---
 crates/tofas/src/delta_at.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tofas/src/delta_at.rs b/crates/tofas/src/delta_at.rs
index a726e7d..320fbd7 100644
--- a/crates/tofas/src/delta_at.rs
+++ b/crates/tofas/src/delta_at.rs
@@ -71,7 +71,7 @@ impl DeltaAt for GregorianDate {
 	let iy = self.year;
 	let im = self.month;
 	
-	if fd < 0.0 || fd > 1.0 {
+	if !(fd >= 0.0 && fd <= 1.0) {
 	    return Err(DeltaAtError::BadFract);
 	}
 
-- 
2.43.0


From 0941aefdb7199da3ae66b4c7e4d1b3aefb69d540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:46 +0000
Subject: [PATCH 04/13] fix: to_julian overflows for accepted far-future years

GregorianDate::new accepts any year from -4799 up, but 1461*(year+4800)
overflowed i32 from about year 1465000.
---
 crates/tofas/src/calendar.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index f34a449..466d60b 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -73,6 +73,8 @@ impl GregorianDate {
     /// Source: cal2jd.for
     pub fn to_julian(&self)->(R,R) {
 	let &Self{ year,month,day } = self;
+	// Intermediate values exceed 32 bits for years above 1.4 million.
+	let (year,month,day) = (year as i64,month as i64,day as i64);
 	let my = ( month - 14 ) / 12;
 	let iypmy = year + my;
 	let djm = ( 1461 * ( iypmy + 4800 ) ) / 4
-- 
2.43.0


From 51cbd54f087df444337d9aea19128b96bbfcf5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:46 +0000
Subject: [PATCH 05/13] fix: from_julian overflows inside its accepted range

Dates up to DJ_MAX = 1e9 are accepted but 4*l overflowed i32 above 5.3e8.
---
 crates/tofas/src/calendar.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index 466d60b..8f29302 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -108,7 +108,8 @@ impl GregorianDate {
 	    f += 1.0;
 	}
 	let d = round(d1 - f1) + round(d2 - f2) + round(f1 + f2 - f);
-	let jd = d as i32 + 1;
+	// Intermediate values exceed 32 bits for days above 5.3e8.
+	let jd = d as i64 + 1;
 
 	let l = jd + 68569;
 	let n = ( 4*l ) / 146097;
@@ -123,9 +124,9 @@ impl GregorianDate {
 	let fd = f;
 
 	Ok((Self {
-	    year:iy,
-	    month:im,
-	    day:id },
+	    year:iy as i32,
+	    month:im as i32,
+	    day:id as i32 },
 	    fd))
     }
 }
-- 
2.43.0


From 7604ceea9e7a4c5732c7a6bc184d4da5560fb4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:46 +0000
Subject: [PATCH 06/13] fix: calendar conversions accept NaN

A NaN Julian date was turned into -4713-11-25 and a NaN fraction of day
into 00:00:NaN instead of being rejected as out of range.
---
 crates/tofas/src/calendar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index 8f29302..f347686 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -89,7 +89,7 @@ impl GregorianDate {
     /// Source: jd2cal.for
     pub fn from_julian(dj1:R,dj2:R)->Result<(Self,R),CalendarError> {
 	let dj = dj1 + dj2;
-	if dj < DJ_MIN || dj > DJ_MAX {
+	if !(dj >= DJ_MIN && dj <= DJ_MAX) {
 	    return Err(CalendarError::BadJulian);
 	}
 
@@ -143,7 +143,7 @@ impl HMS {
     }
     
     pub fn from_fraction_of_day(f:f64)->Result<Self,CalendarError> {
-	if f < 0.0 || f > 1.0 {
+	if !(f >= 0.0 && f <= 1.0) {
 	    return Err(CalendarError::BadFract)
 	}
 	let s = 86400.0 * f;
-- 
2.43.0


From f2dbd6e72bcc1dcb74a15ff13357eb06d9c8d94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:46 +0000
Subject: [PATCH 07/13] fix: from_julian can return a fraction of day of 1

An instant less than an ulp before midnight, such as (2451545.0,
0.49999999999999994), gave the previous day with fraction 1.0, which
GregorianDateHMS turns into 24:00:00.
---
 crates/tofas/src/calendar.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index f347686..cc5635a 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -106,6 +106,10 @@ impl GregorianDate {
 	let mut f = (f1 + f2) % 1.0;
 	if f < 0.0 {
 	    f += 1.0;
+	    // A tiny negative fraction rounds up to a whole day.
+	    if f >= 1.0 {
+		f = 0.0;
+	    }
 	}
 	let d = round(d1 - f1) + round(d2 - f2) + round(f1 + f2 - f);
 	// Intermediate values exceed 32 bits for days above 5.3e8.
-- 
2.43.0


From 1874d89d03f0a57f0d0ad5dbbcf706d337e42b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:46 +0000
Subject: [PATCH 08/13] fix: angle between (anti)parallel vectors can be NaN

The dot product of two normalized vectors can exceed 1 by rounding.
---
 crates/tofas/src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tofas/src/common.rs b/crates/tofas/src/common.rs
index 318334f..7ab75d7 100644
--- a/crates/tofas/src/common.rs
+++ b/crates/tofas/src/common.rs
@@ -84,7 +84,7 @@ impl Vector for Vec3 {
     }
 
     fn angle(self,b:Self)->R {
-	acos(self.normalize().dot(b.normalize()))
+	acos(self.normalize().dot(b.normalize()).clamp(-1.0,1.0))
     }
 }
 
-- 
2.43.0


From 4f1f6212896dead0920a2c4233e02f299a130962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:46 +0000
Subject: [PATCH 09/13] fix: anp can return 2 pi

The documented range is [0,2pi[ but tiny negative angles gave 2 pi.
---
 crates/tofas/src/common.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/tofas/src/common.rs b/crates/tofas/src/common.rs
index 7ab75d7..06e8777 100644
--- a/crates/tofas/src/common.rs
+++ b/crates/tofas/src/common.rs
@@ -31,6 +31,10 @@ pub fn anp(a:R)->R {
     let mut w = a % TWO_PI;
     if w < 0.0 {
 	w += TWO_PI;
+	// A tiny negative angle rounds up to a whole turn.
+	if w >= TWO_PI {
+	    w = 0.0;
+	}
     }
     w
 }
-- 
2.43.0


From d6eb5882687bff4db482a44010dde39fe7aa7da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:02 +0000
Subject: [PATCH 10/13] fix: luni-solar fundamental arguments are not reduced
 to one turn

`a + t*(...) % TURNAS` applies the remainder before adding the constant
term, so the result differed from SOFA's fal03 etc. by a turn for part of
the dates. The planetary arguments already had the parentheses right.
---
 crates/tofas/src/fundargs.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/tofas/src/fundargs.rs b/crates/tofas/src/fundargs.rs
index 5962ebc..0f4a501 100644
--- a/crates/tofas/src/fundargs.rs
+++ b/crates/tofas/src/fundargs.rs
@@ -3,52 +3,52 @@ use crate::common::*;
 /// Mean anomaly of the Moon (IERS Conventions 2003).
 /// Source: fal03.for
 pub fn l03(t:R)->R {
-    (485868.249036 +
+    ((485868.249036 +
      t*(1717915923.2178 +
 	t*(31.8792 +
 	   t*(0.051635 +
-	      t*(-0.00024470)))) % TURNAS) * AS2R
+	      t*(-0.00024470))))) % TURNAS) * AS2R
 }
 
 /// Mean anomaly of the Sun (IERS Conventions 2003).
 /// Source: falp03.for
 pub fn lp03(t:R)->R {
-    (1287104.793048 +
+    ((1287104.793048 +
       t*(129596581.0481 +
 	  t*(- 0.5532 +
 		t*(0.000136 +
-		    t*(-0.00001149)))) % TURNAS) * AS2R
+		    t*(-0.00001149))))) % TURNAS) * AS2R
 }
 
 /// Mean longitude of the Moon minus mean longitude of the ascending
 /// node.
 /// Source: faf03.for
 pub fn f03(t:R)->R {
-    (335779.526232 +
+    ((335779.526232 +
      t*(1739527262.8478 +
 	t*(-12.7512 +
 	   t*(-0.001037 +
-	      t*(0.00000417 )))) % TURNAS) * AS2R
+	      t*(0.00000417 ))))) % TURNAS) * AS2R
 }
 
 /// Mean elongation of the Moon from the Sun.
 /// Source: fad03.for
 pub fn d03(t:R)->R {
-    (1072260.703692 +
+    ((1072260.703692 +
      t*(1602961601.2090 +
 	t*(-6.3706 +
 	   t*(0.006593 +
-	      t*(-0.00003169)))) % TURNAS) * AS2R
+	      t*(-0.00003169))))) % TURNAS) * AS2R
 }
 
 /// Mean longitude of the Moon's ascending node.
 /// Source: faom03.for
 pub fn om03(t:R)->R {
-    (450160.398036 +
+    ((450160.398036 +
      t*(-6962890.5431 +
 	t*(7.4722 +
 	   t*(0.007702 +
-	      t*(-0.00005939 )))) % TURNAS) * AS2R
+	      t*(-0.00005939 ))))) % TURNAS) * AS2R
 }
 
 /// Mean longitude of Venus.
-- 
2.43.0


From b5b19bff23a8a227ae5d8ee65e10b9b677912b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:02 +0000
Subject: [PATCH 11/13] fix: conversion to Geodetic360 sends the north pole to
 the south pole

Wrapping into [-90,90[ mapped a latitude of exactly +90 degrees, which
geocentric_to_geodetic returns at the pole, to -90.
---
 crates/tofas/src/ellipsoid.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/tofas/src/ellipsoid.rs b/crates/tofas/src/ellipsoid.rs
index 78968b0..bd12a1c 100644
--- a/crates/tofas/src/ellipsoid.rs
+++ b/crates/tofas/src/ellipsoid.rs
@@ -54,7 +54,14 @@ impl From<Geodetic> for Geodetic360 {
 impl From<&Geodetic> for Geodetic360 {
     fn from(gd:&Geodetic)->Self {
 	let lon = (gd.elong/DEGREE + 180.0).rem_euclid(360.0) - 180.0;
-	let lat = (gd.phi/DEGREE + 90.0).rem_euclid(180.0) - 90.0;
+	// A valid latitude, including the north pole, is left alone.
+	let lat = gd.phi/DEGREE;
+	let lat =
+	    if abs(lat) <= 90.0 {
+		lat
+	    } else {
+		(lat + 90.0).rem_euclid(180.0) - 90.0
+	    };
 	debug_assert!(-180.0 <= lon && lon <= 180.0);
 	debug_assert!(-90.0 <= lat && lat <= 90.0);
 	Self {
-- 
2.43.0


From 708b79a22eede8bd8b9bf596ca0bac53f7c43d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:02 +0000
Subject: [PATCH 12/13] fix: ellipsoid with zero radius or NaN parameters is
 accepted

SOFA's gc2gde.for rejects A <= 0; here a zero radius, a NaN radius or a NaN
flattening was accepted and every conversion then gave NaN.
---
 crates/tofas/src/ellipsoid.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tofas/src/ellipsoid.rs b/crates/tofas/src/ellipsoid.rs
index bd12a1c..a354834 100644
--- a/crates/tofas/src/ellipsoid.rs
+++ b/crates/tofas/src/ellipsoid.rs
@@ -132,11 +132,11 @@ impl EllipsoidConverter {
     pub fn new(ellipsoid:&Ellipsoid)->Result<Self,EllipsoidError> {
 	let &Ellipsoid{ a,f } = ellipsoid;
 
-	if f < 0.0 || f >= 1.0 {
+	if !(f >= 0.0 && f < 1.0) {
 	    return Err(EllipsoidError::InvalidFlattening);
 	}
 
-	if a < 0.0 {
+	if !(a > 0.0) {
 	    return Err(EllipsoidError::InvalidRadius);
 	}
 
-- 
2.43.0


From 23c4fd0134b362f25f4861c23b8bc7d2a0121410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:19 +0000
Subject: [PATCH 13/13] fix: a time inside a leap second panics the Sun angle
 calculator

---
 crates/tofas_extras/src/sun_angle.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/tofas_extras/src/sun_angle.rs b/crates/tofas_extras/src/sun_angle.rs
index c214acb..5430bca 100644
--- a/crates/tofas_extras/src/sun_angle.rs
+++ b/crates/tofas_extras/src/sun_angle.rs
@@ -128,7 +128,14 @@ impl SunAngleCalculator {
 
 	let fr = time.to_fraction_of_day();
 	let (jd0,jd1_date) = date.to_julian();
-	let dat = date.delta_at(fr).expect("Delta AT error").unwrap_or(0.0);
+	// A leap second still belongs to the day that it ends
+	let fr_dat =
+	    if time.second >= 60.0 && fr < 1.0 + 1.0/86400.0 {
+		fr.min(1.0)
+	    } else {
+		fr
+	    };
+	let dat = date.delta_at(fr_dat).expect("Delta AT error").unwrap_or(0.0);
 
 	let wgs84 = EllipsoidConverter::new(&WGS84).expect("Invalid ellipsoid");
 	let p_gd : Geodetic = position.into();
-- 
2.43.0

