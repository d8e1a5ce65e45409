From e447980e41e56a082c821e4ca94d6601fd41e575 Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Wed, 18 Nov 2026 23:02:15 +0000
Subject: [PATCH 01/23] fix: split the name lists of TopSky AUP and NOTAM
 conditions

---
 src/topsky/map/active.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/topsky/map/active.rs b/src/topsky/map/active.rs
index afee1fd..60bc9b7 100644
--- a/src/topsky/map/active.rs
+++ b/src/topsky/map/active.rs
@@ -126,6 +126,7 @@ impl Active {
             Rule::active_aup => Self::Aup(
                 active
                     .into_inner()
+                    .flat_map(Pair::into_inner)
                     .map(|pair| pair.as_str().to_string())
                     .collect(),
             ),
@@ -133,7 +134,10 @@ impl Active {
                 let mut active_notam = active.into_inner();
                 Self::Notam(
                     active_notam.next().unwrap().as_str().to_string(),
-                    active_notam.map(|pair| pair.as_str().to_string()).collect(),
+                    active_notam
+                        .flat_map(Pair::into_inner)
+                        .map(|pair| pair.as_str().to_string())
+                        .collect(),
                 )
             }
             Rule::active_area => Self::Area(ActiveAreas::parse(active)),
-- 
2.43.0


From df89a0f77c1518e6f3fa8088fcdf3e2dc3d1ea72 Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Wed, 18 Nov 2026 23:02:53 +0000
Subject: [PATCH 02/23] fix: draw .sct airways between their two ends instead
 of single points

---
 src/adaptation/sct_items.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/adaptation/sct_items.rs b/src/adaptation/sct_items.rs
index a15fbbc..3220d2a 100644
--- a/src/adaptation/sct_items.rs
+++ b/src/adaptation/sct_items.rs
@@ -84,7 +84,7 @@ fn build_linestring(
                 .find(|line| !visited.contains(&line_hash(**line)))
         })
         .map(|next_line| {
-            let next_point = if next_line.start == point {
+            let next_point = if coord_hash(next_line.start) == coord_hash(point) {
                 next_line.end
             } else {
                 next_line.start
@@ -109,7 +109,7 @@ fn airway_to_multi_line_string(
         .filter_map(|airway| {
             let line = locations
                 .convert_location(&airway.start)
-                .zip(locations.convert_location(&airway.start))
+                .zip(locations.convert_location(&airway.end))
                 .map(|(start, end)| Line::new(start, end));
             if line.is_none() {
                 warn!("Could not convert {airway:?} in .sct {typ} {name}");
@@ -135,11 +135,10 @@ fn airway_to_multi_line_string(
                 MultiLineString::new(vec![]),
                 std::collections::HashSet::new(),
             ),
-            |(mut acc, mut visited), line| {
+            |(mut acc, visited), line| {
                 if visited.contains(&line_hash(*line)) {
                     (acc, visited)
                 } else {
-                    visited.insert(line_hash(*line));
                     let (linestring, new_visited) =
                         build_linestring(line.start, visited, &adjacency);
                     acc.0.push(linestring);
-- 
2.43.0


From c6f12fe02c6d34d73836182c5956e7d505c76756 Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Wed, 18 Nov 2026 23:02:54 +0000
Subject: [PATCH 03/23] fix: fall back to the colour of their own kind for
 uncoloured .sct lines

---
 src/adaptation/sct_items.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/adaptation/sct_items.rs b/src/adaptation/sct_items.rs
index 3220d2a..d61caa1 100644
--- a/src/adaptation/sct_items.rs
+++ b/src/adaptation/sct_items.rs
@@ -36,6 +36,7 @@ impl ColouredLines {
         locations: &Locations,
         colours: &Colours,
         settings: &Settings,
+        default_colour: Colour,
         name: &str,
         typ: &str,
     ) -> Option<Self> {
@@ -65,7 +66,7 @@ impl ColouredLines {
                 .colour_name
                 .as_ref()
                 .and_then(|colour_name| colours.get(colour_name, settings))
-                .unwrap_or(colours.map.sid),
+                .unwrap_or(default_colour),
             lines,
         })
     }
@@ -186,6 +187,7 @@ impl SctItems {
                                 locations,
                                 colours,
                                 settings,
+                                colours.map.sid,
                                 &sid.name,
                                 "SID",
                             )
@@ -206,6 +208,7 @@ impl SctItems {
                                 locations,
                                 colours,
                                 settings,
+                                colours.map.star,
                                 &star.name,
                                 "STAR",
                             )
@@ -250,6 +253,7 @@ impl SctItems {
                                 locations,
                                 colours,
                                 settings,
+                                colours.map.artcc_high_boundary,
                                 &artcc.name,
                                 "ARTCC High",
                             )
@@ -271,6 +275,7 @@ impl SctItems {
                                 locations,
                                 colours,
                                 settings,
+                                colours.map.artcc_boundary,
                                 &artcc.name,
                                 "ARTCC",
                             )
@@ -292,6 +297,7 @@ impl SctItems {
                                 locations,
                                 colours,
                                 settings,
+                                colours.map.artcc_low_boundary,
                                 &artcc.name,
                                 "ARTCC Low",
                             )
@@ -312,6 +318,7 @@ impl SctItems {
                                 locations,
                                 colours,
                                 settings,
+                                colours.map.geo,
                                 &geo.name,
                                 "Geo",
                             )
-- 
2.43.0


From 76f080de3690bbb4f843867be7e8576c2a7165a7 Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Wed, 18 Nov 2026 23:03:03 +0000
Subject: [PATCH 04/23] fix: take the high airway name colour from its own
 symbology item

---
 src/adaptation/colours.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adaptation/colours.rs b/src/adaptation/colours.rs
index a5dc074..12cf3b1 100644
--- a/src/adaptation/colours.rs
+++ b/src/adaptation/colours.rs
@@ -232,7 +232,7 @@ impl MapColours {
             ),
             high_airway_name: Colour::from_symbology(
                 symbology,
-                &("High airways".to_string(), "line".to_string()),
+                &("High airways".to_string(), "name".to_string()),
                 Self::DEFAULT_HIGH_AIRWAY_NAME,
             ),
             sid: Colour::from_symbology(
-- 
2.43.0


From bf8d4df1c692a8db9f576bce3006a9ec05333d1b Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Wed, 18 Nov 2026 23:03:03 +0000
Subject: [PATCH 05/23] fix: default VOR symbol instead of the NDB one

---
 src/adaptation/symbols.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adaptation/symbols.rs b/src/adaptation/symbols.rs
index 52bb09b..df1a99a 100644
--- a/src/adaptation/symbols.rs
+++ b/src/adaptation/symbols.rs
@@ -190,7 +190,7 @@ impl Symbols {
                 .and_then(|t| t.symbols.get("VOR"))
                 .map(|s| s.rules.clone())
                 .or_else(|| symbology.symbols.get(&SymbolType::VOR).cloned())
-                .unwrap_or(default_ndb().clone()),
+                .unwrap_or(default_vor().clone()),
             airport: topsky
                 .as_ref()
                 .and_then(|t| t.symbols.get("AIRPORT"))
-- 
2.43.0


From 5704ba5e79f7709dcb2b3478a3bcbfa645cca9ce Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Wed, 18 Nov 2026 23:03:03 +0000
Subject: [PATCH 06/23] fix: keep polygons already drawn when map attributes
 change

---
 src/adaptation/maps/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/adaptation/maps/mod.rs b/src/adaptation/maps/mod.rs
index 054ec2a..c934a21 100644
--- a/src/adaptation/maps/mod.rs
+++ b/src/adaptation/maps/mod.rs
@@ -47,7 +47,11 @@ impl Map {
         F: FnMut(&mut MapGroup),
     {
         if let Some(last) = self.map_groups.last() {
-            if last.lines.0.is_empty() && last.symbols.is_empty() && last.labels.is_empty() {
+            if last.lines.0.is_empty()
+                && last.symbols.is_empty()
+                && last.labels.is_empty()
+                && last.polygons.is_empty()
+            {
                 change_fn(self.map_groups.last_mut().unwrap());
             } else {
                 let mut map_group = MapGroup {
-- 
2.43.0


From af9a96c6d7f0304e6bcf5bdbfe759346c129025d Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Wed, 18 Nov 2026 23:15:55 +0000
Subject: [PATCH 07/23] fix: keep the first visibility point of positions
 without squawk range

---
 src/ese.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/ese.rs b/src/ese.rs
index ecc2262..3bfeac9 100644
--- a/src/ese.rs
+++ b/src/ese.rs
@@ -445,16 +445,11 @@ fn parse_airspace(pair: Pair<Rule>) -> SectorRule {
     }
 }
 
-fn parse_squawk_range(maybe_pair: Option<Pair<Rule>>) -> Option<(u16, u16)> {
-    maybe_pair.and_then(|pair| match pair.as_rule() {
-        Rule::squawk_range => {
-            let mut squawk_range = pair.into_inner();
-            let squawk_begin = squawk_range.next().unwrap().as_str().parse().unwrap();
-            let squawk_end = squawk_range.next().unwrap().as_str().parse().unwrap();
-            Some((squawk_begin, squawk_end))
-        }
-        _ => None,
-    })
+fn parse_squawk_range(pair: Pair<Rule>) -> (u16, u16) {
+    let mut squawk_range = pair.into_inner();
+    let squawk_begin = squawk_range.next().unwrap().as_str().parse().unwrap();
+    let squawk_end = squawk_range.next().unwrap().as_str().parse().unwrap();
+    (squawk_begin, squawk_end)
 }
 
 fn parse_position(pair: Pair<Rule>) -> (String, Position) {
@@ -467,8 +462,10 @@ fn parse_position(pair: Pair<Rule>) -> (String, Position) {
     let prefix = position.next().unwrap().as_str().to_string();
     let suffix = position.next().unwrap().as_str().to_string();
     // skip unused fields
-    let mut position = position.skip(2);
-    let squawk_range = parse_squawk_range(position.next());
+    let mut position = position.skip(2).peekable();
+    let squawk_range = position
+        .next_if(|pair| matches!(pair.as_rule(), Rule::squawk_range))
+        .map(parse_squawk_range);
     let visibility_points = position.map(parse_coordinate).collect();
 
     (
-- 
2.43.0


From 84d2dccb263f79a6850e2f2028ddd430ff6b82e8 Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Wed, 18 Nov 2026 23:23:45 +0000
Subject: [PATCH 08/23] fix: read decimal and mixed coordinate notations in
 .ese, .asr and TopSky maps

---
 src/asr.rs            | 25 +++++++++++++++----
 src/ese.rs            | 15 +++++++----
 src/lib.rs            | 12 ++++-----
 src/topsky/map/mod.rs | 58 +++++++++++++++++--------------------------
 4 files changed, 59 insertions(+), 51 deletions(-)

diff --git a/src/asr.rs b/src/asr.rs
index 7370616..7ef2950 100644
--- a/src/asr.rs
+++ b/src/asr.rs
@@ -9,7 +9,7 @@ use tracing::warn;
 
 use crate::TwoKeyMap;
 
-use super::read_to_string;
+use super::{decimal_from_deg_min_sec, read_to_string, Sign};
 
 #[derive(Parser)]
 #[grammar = "pest/asr.pest"]
@@ -214,6 +214,21 @@ fn to_bool(data: &str) -> Option<bool> {
     }
 }
 
+fn parse_coordinate_part(pair: Pair<Rule>) -> f64 {
+    let coordinate_part = pair.into_inner().next().unwrap();
+    if let Rule::DECIMAL = coordinate_part.as_rule() {
+        return coordinate_part.as_str().parse().unwrap();
+    }
+
+    let mut coordinate_part = coordinate_part.into_inner();
+    let sign = Sign::from(coordinate_part.next().unwrap().as_str());
+    let deg = coordinate_part.next().unwrap().as_str().parse().unwrap();
+    let min = coordinate_part.next().unwrap().as_str().parse().unwrap();
+    let sec = coordinate_part.next().unwrap().as_str().parse().unwrap();
+
+    decimal_from_deg_min_sec((sign, deg, min, sec))
+}
+
 fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
     let rule = pair.as_rule();
     let mut inner = pair.into_inner();
@@ -290,10 +305,10 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
             inner.next().unwrap().as_str().to_string(),
         )),
         Rule::window_area => {
-            let lat1 = inner.next().unwrap().as_str().parse().unwrap();
-            let lng1 = inner.next().unwrap().as_str().parse().unwrap();
-            let lat2 = inner.next().unwrap().as_str().parse().unwrap();
-            let lng2 = inner.next().unwrap().as_str().parse().unwrap();
+            let lat1 = parse_coordinate_part(inner.next().unwrap());
+            let lng1 = parse_coordinate_part(inner.next().unwrap());
+            let lat2 = parse_coordinate_part(inner.next().unwrap());
+            let lng2 = parse_coordinate_part(inner.next().unwrap());
             Some(AsrData::WindowArea((
                 Coord { x: lng1, y: lat1 },
                 Coord { x: lng2, y: lat2 },
diff --git a/src/ese.rs b/src/ese.rs
index 3bfeac9..852c389 100644
--- a/src/ese.rs
+++ b/src/ese.rs
@@ -12,7 +12,7 @@ use tracing::warn;
 
 use crate::{
     adaptation::maps::active::RunwayIdentifier, adaptation::settings::CoordinationTiming,
-    DegMinSec, DegMinSecExt as _, Sign,
+    decimal_from_deg_min_sec, Sign,
 };
 
 use super::read_to_string;
@@ -397,8 +397,13 @@ enum SectionName {
     Unsupported,
 }
 
-fn parse_coordinate_part(pair: Pair<Rule>) -> DegMinSec {
-    let mut coordinate_part = pair.into_inner().next().unwrap().into_inner();
+fn parse_coordinate_part(pair: Pair<Rule>) -> f64 {
+    let coordinate_part = pair.into_inner().next().unwrap();
+    if let Rule::decimal = coordinate_part.as_rule() {
+        return coordinate_part.as_str().parse().unwrap();
+    }
+
+    let mut coordinate_part = coordinate_part.into_inner();
     let hemi = coordinate_part.next().unwrap().as_str();
     let sign = Sign::from(hemi);
     let degrees = coordinate_part
@@ -411,7 +416,7 @@ fn parse_coordinate_part(pair: Pair<Rule>) -> DegMinSec {
     let min = coordinate_part.next().unwrap().as_str().parse().unwrap();
     let sec = coordinate_part.next().unwrap().as_str().parse().unwrap();
 
-    (sign, degrees, min, sec)
+    decimal_from_deg_min_sec((sign, degrees, min, sec))
 }
 
 // TODO generalise this and other similar into trait
@@ -419,7 +424,7 @@ fn parse_coordinate(pair: Pair<Rule>) -> Coord {
     let mut coordinate = pair.into_inner();
     let lat = parse_coordinate_part(coordinate.next().unwrap());
     let lng = parse_coordinate_part(coordinate.next().unwrap());
-    Coord::from_deg_min_sec(lat, lng)
+    Coord { x: lng, y: lat }
 }
 
 enum SectorRule {
diff --git a/src/lib.rs b/src/lib.rs
index 97d4da5..65cd725 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -93,15 +93,15 @@ pub trait DegMinSecExt {
     }
 }
 
+fn decimal_from_deg_min_sec((sign, deg, min, sec): DegMinSec) -> f64 {
+    (f64::from(deg) + f64::from(min) / 60.0 + sec / 3600.0) * f64::from(sign.sign())
+}
+
 impl DegMinSecExt for Coord {
     fn from_deg_min_sec(lat: DegMinSec, lng: DegMinSec) -> Self {
-        let lat_deg = f64::from(lat.1);
-        let lat_min = f64::from(lat.2);
-        let lng_deg = f64::from(lng.1);
-        let lng_min = f64::from(lng.2);
         Self {
-            y: (lat_deg + lat_min / 60.0 + lat.3 / 3600.0) * f64::from(lat.0.sign()),
-            x: (lng_deg + lng_min / 60.0 + lng.3 / 3600.0) * f64::from(lng.0.sign()),
+            y: decimal_from_deg_min_sec(lat),
+            x: decimal_from_deg_min_sec(lng),
         }
     }
 
diff --git a/src/topsky/map/mod.rs b/src/topsky/map/mod.rs
index 655b2d6..b9c8549 100644
--- a/src/topsky/map/mod.rs
+++ b/src/topsky/map/mod.rs
@@ -13,7 +13,7 @@ use tracing::warn;
 
 use crate::{
     adaptation::{colours::Colour, line_styles::LineStyle, maps::active::Active, Alignment},
-    read_to_string, DegMinSec, DegMinSecExt as _, Location, Sign,
+    decimal_from_deg_min_sec, read_to_string, Location, Sign,
 };
 
 use super::{
@@ -22,46 +22,34 @@ use super::{
     Rule, TopskyError, TopskyParser,
 };
 
-enum CoordinatePart {
-    Decimal(f64),
-    DegMinSec(DegMinSec),
-}
-impl CoordinatePart {
-    fn parse(pair: Pair<Rule>) -> Self {
-        let coordinate_part = pair.into_inner().next().unwrap();
-        match coordinate_part.as_rule() {
-            Rule::decimal => Self::Decimal(coordinate_part.as_str().parse().unwrap()),
-            Rule::sct_coord_part => {
-                let mut sct_coord_part = coordinate_part.into_inner();
-                let hemi = sct_coord_part.next().unwrap().as_str();
-                let sign = Sign::from(hemi);
-                let degrees = sct_coord_part
-                    .next()
-                    .unwrap()
-                    .as_str()
-                    .parse::<u16>()
-                    .unwrap();
-                let min = sct_coord_part.next().unwrap().as_str().parse().unwrap();
-                let sec = sct_coord_part.next().unwrap().as_str().parse().unwrap();
-
-                Self::DegMinSec((sign, degrees, min, sec))
-            }
-            rule => unreachable!("{rule:?}"),
+fn parse_coordinate_part(pair: Pair<Rule>) -> f64 {
+    let coordinate_part = pair.into_inner().next().unwrap();
+    match coordinate_part.as_rule() {
+        Rule::decimal => coordinate_part.as_str().parse().unwrap(),
+        Rule::sct_coord_part => {
+            let mut sct_coord_part = coordinate_part.into_inner();
+            let hemi = sct_coord_part.next().unwrap().as_str();
+            let sign = Sign::from(hemi);
+            let degrees = sct_coord_part
+                .next()
+                .unwrap()
+                .as_str()
+                .parse::<u16>()
+                .unwrap();
+            let min = sct_coord_part.next().unwrap().as_str().parse().unwrap();
+            let sec = sct_coord_part.next().unwrap().as_str().parse().unwrap();
+
+            decimal_from_deg_min_sec((sign, degrees, min, sec))
         }
+        rule => unreachable!("{rule:?}"),
     }
 }
 
 fn parse_coord(pair: Pair<Rule>) -> Coord {
     let mut coordinate = pair.into_inner();
-    let lat = CoordinatePart::parse(coordinate.next().unwrap());
-    let lng = CoordinatePart::parse(coordinate.next().unwrap());
-    match (lat, lng) {
-        (CoordinatePart::Decimal(y), CoordinatePart::Decimal(x)) => Coord { x, y },
-        (CoordinatePart::DegMinSec(lat), CoordinatePart::DegMinSec(lng)) => {
-            Coord::from_deg_min_sec(lat, lng)
-        }
-        _ => panic!("Consistency!"),
-    }
+    let lat = parse_coordinate_part(coordinate.next().unwrap());
+    let lng = parse_coordinate_part(coordinate.next().unwrap());
+    Coord { x: lng, y: lat }
 }
 
 impl Location {
-- 
2.43.0


From 739dfd67e54c64f977c29c3cfa976c5ccecd8275 Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Wed, 18 Nov 2026 23:25:28 +0000
Subject: [PATCH 09/23] fix: reject or skip out-of-range numbers instead of
 panicking

---
 src/asr.rs              | 16 ++++++++++------
 src/ese.rs              |  2 +-
 src/pest/airway.pest    |  2 +-
 src/pest/asr.pest       |  4 ++--
 src/pest/base.pest      |  8 ++++----
 src/pest/ese.pest       | 11 ++++++-----
 src/pest/symbology.pest |  2 +-
 src/topsky/map/mod.rs   | 18 +++++++++++-------
 8 files changed, 36 insertions(+), 27 deletions(-)

diff --git a/src/asr.rs b/src/asr.rs
index 7ef2950..d9c4e49 100644
--- a/src/asr.rs
+++ b/src/asr.rs
@@ -256,7 +256,7 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
         Rule::show_c => to_bool(inner.next().unwrap().as_str()).map(AsrData::ShowC),
         Rule::show_standby => to_bool(inner.next().unwrap().as_str()).map(AsrData::ShowStandby),
         Rule::above => {
-            let filter = inner.next().unwrap().as_str().parse().unwrap();
+            let filter = inner.next().unwrap().as_str().parse().ok()?;
             Some(if filter == 0 {
                 AsrData::Above(None)
             } else {
@@ -264,7 +264,7 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
             })
         }
         Rule::below => {
-            let filter = inner.next().unwrap().as_str().parse().unwrap();
+            let filter = inner.next().unwrap().as_str().parse().ok()?;
             Some(if filter == 0 {
                 AsrData::Below(None)
             } else {
@@ -272,7 +272,7 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
             })
         }
         Rule::leader => {
-            let leader = inner.next().unwrap().as_str().parse::<i8>().unwrap();
+            let leader = inner.next().unwrap().as_str().parse::<i8>().ok()?;
             Some(if leader > 0 {
                 #[allow(clippy::cast_sign_loss)]
                 AsrData::Leader(Leader::Miles(leader as u8))
@@ -282,9 +282,13 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
         }
         Rule::show_leader => to_bool(inner.next().unwrap().as_str()).map(AsrData::ShowLeader),
         Rule::turn_leader => to_bool(inner.next().unwrap().as_str()).map(AsrData::TurnLeader),
-        Rule::history_dots => Some(AsrData::HistoryDots(
-            inner.next().unwrap().as_str().parse().unwrap(),
-        )),
+        Rule::history_dots => inner
+            .next()
+            .unwrap()
+            .as_str()
+            .parse()
+            .ok()
+            .map(AsrData::HistoryDots),
         Rule::simulation_mode => Some(AsrData::SimulationMode(
             match inner.next().unwrap().as_str() {
                 "1" => SimulationMode::Radar,
diff --git a/src/ese.rs b/src/ese.rs
index 852c389..c3c3f47 100644
--- a/src/ese.rs
+++ b/src/ese.rs
@@ -258,7 +258,7 @@ fn parse_wildcard_string(pair: &Pair<Rule>) -> Option<String> {
 fn parse_wildcard_u32(pair: &Pair<Rule>) -> Option<u32> {
     match pair.as_rule() {
         Rule::wildcard => None,
-        Rule::integer => Some(pair.as_str().parse().unwrap()),
+        Rule::pos_integer => Some(pair.as_str().parse().unwrap()),
         rule => unreachable!("{rule:?}"),
     }
 }
diff --git a/src/pest/airway.pest b/src/pest/airway.pest
index 605d6cb..7b3850f 100644
--- a/src/pest/airway.pest
+++ b/src/pest/airway.pest
@@ -16,7 +16,7 @@ no_neighbour = {
 }
 
 bool = _{ TRUE | FALSE }
-level = { ASCII_DIGIT+ }
+level = { ASCII_DIGIT{1,9} }
 not_established = { "NESTB" | "" }
 
 designator = { (ASCII_ALPHA_UPPER | ASCII_DIGIT)+ }
diff --git a/src/pest/asr.pest b/src/pest/asr.pest
index 77bb8a9..c7894a1 100644
--- a/src/pest/asr.pest
+++ b/src/pest/asr.pest
@@ -119,8 +119,8 @@ value = @{ (!NL ~ ANY)* }
 multivalue = @{ (!(NL|":") ~ ANY)* }
 multivalue_backslash = @{ (!"\\" ~ ANY)* }
 
-deg = @{ ASCII_DIGIT+ }
-min = @{ ASCII_DIGIT+ }
+deg = @{ ASCII_DIGIT{1,4} }
+min = @{ ASCII_DIGIT{1,2} }
 sec = @{ DECIMAL }
 hemi = @{ "N" | "S" | "W" | "E" }
 
diff --git a/src/pest/base.pest b/src/pest/base.pest
index b4cd78e..ad4ed2c 100644
--- a/src/pest/base.pest
+++ b/src/pest/base.pest
@@ -1,14 +1,14 @@
 point       =  { decimal ~ ":" ~ decimal }
 NL          = _{ ((" " | "\t")* ~ NEWLINE)+ }
 decimal     = @{ ("-" | "+")? ~ ((ASCII_DIGIT* ~ "." ~ ASCII_DIGIT+) | ASCII_DIGIT+) }
-integer     = @{ ("-" | "+")? ~ ASCII_DIGIT+ }
-pos_integer = @{ "+"? ~ ASCII_DIGIT+ }
+integer     = @{ ("-" | "+")? ~ ASCII_DIGIT{1,9} }
+pos_integer = @{ "+"? ~ ASCII_DIGIT{1,9} }
 
 coordinate     =  { coord_part ~ ":" ~ coord_part }
 coord_part     =  { sct_coord_part | decimal }
 sct_coord_part = ${ hemi ~ deg ~ "." ~ min ~ "." ~ sec }
-deg            = @{ ASCII_DIGIT+ }
-min            = @{ ASCII_DIGIT+ }
+deg            = @{ ASCII_DIGIT{1,4} }
+min            = @{ ASCII_DIGIT{1,2} }
 sec            = @{ decimal }
 hemi           = @{ "N" | "S" | "W" | "E" | "n" | "s" | "w" | "e" }
 direction      = @{ "<" | ">" }
diff --git a/src/pest/ese.pest b/src/pest/ese.pest
index c2a029e..bf3e030 100644
--- a/src/pest/ese.pest
+++ b/src/pest/ese.pest
@@ -21,7 +21,8 @@ position = {
   ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ squawk_range? ~ ":"?
   ~ coordinate? ~ (":" ~ coordinate)? ~ (":" ~ coordinate)? ~ (":" ~ coordinate)?
 }
-squawk_range = { integer ~ ":" ~ integer }
+squawk_range = { squawk ~ ":" ~ squawk }
+squawk = @{ "+"? ~ ASCII_DIGIT{1,4} }
 
 cop = {
   "COPX:" ~ prev ~ ":" ~ dep_rwy ~ ":" ~ cop_def ~ ":" ~ after ~ ":" ~ arr_rwy ~ ":" ~ sctx ~ ":"
@@ -38,8 +39,8 @@ arr_rwy = _{ wildcard | designator }
 cop_def = _{ wildcard | colon_delimited_text }
 sctx = _{ colon_delimited_text }
 sctn = _{ colon_delimited_text }
-alt_clb = _{ wildcard | integer }
-alt_des = _{ wildcard | integer }
+alt_clb = _{ wildcard | pos_integer }
+alt_des = _{ wildcard | pos_integer }
 cop_description = _{ colon_delimited_text }
 
 sectorline = { "SECTORLINE:" ~ colon_delimited_text ~ NL ~ ((display | coord) ~ NL)* }
@@ -52,7 +53,7 @@ circle_sectorline = {
 
 display_sectorline = { "DISPLAY_SECTORLINE:" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ NL }
 
-sector = { "SECTOR:" ~ colon_delimited_text ~ ":" ~ integer ~ ":" ~ integer ~ NL ~ (sector_subsettings ~ NL)* }
+sector = { "SECTOR:" ~ colon_delimited_text ~ ":" ~ pos_integer ~ ":" ~ pos_integer ~ NL ~ (sector_subsettings ~ NL)* }
 sector_subsettings = _{ owner | altowner | border | guest | active | depapt | arrapt }
 owner = { "OWNER" ~ (":" ~ colon_delimited_text)+ }
 altowner = { "ALTOWNER:" ~ colon_delimited_text ~ (":" ~ colon_delimited_text)+ }
@@ -65,7 +66,7 @@ sct = _{ colon_delimited_text }
 adep = _{ wildcard | designator }
 ades = _{ wildcard | designator }
 
-msaw = { "MSAW:" ~ colon_delimited_text ~ ":" ~ integer ~ NL ~ (coord ~ NL)+ }
+msaw = { "MSAW:" ~ colon_delimited_text ~ ":" ~ pos_integer ~ NL ~ (coord ~ NL)+ }
 
 sid = { "SID:" ~ designator ~ ":" ~ (runway_designator | none) ~ ":" ~ colon_delimited_text ~ ":" ~ route }
 star = { "STAR:" ~ designator ~ ":" ~ (runway_designator | none) ~ ":" ~ colon_delimited_text ~ ":" ~ route }
diff --git a/src/pest/symbology.pest b/src/pest/symbology.pest
index a3718ed..0e5db77 100644
--- a/src/pest/symbology.pest
+++ b/src/pest/symbology.pest
@@ -8,7 +8,7 @@ item = { colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ integer ~ ":"
 line_style = { '0'..'4' }
 alignment = { "12" | "13" | "14" | '0'..'2' | '6'..'8' }
 
-symbol = { "SYMBOL:" ~ integer ~ NL ~ symbolitem+ }
+symbol = { "SYMBOL:" ~ pos_integer ~ NL ~ symbolitem+ }
 symbolitem = _{ "SYMBOLITEM:" ~ symbolrule }
 
 footer = { clip_area ~ NL ~ "END" ~ NL? }
diff --git a/src/topsky/map/mod.rs b/src/topsky/map/mod.rs
index b9c8549..65b6c5e 100644
--- a/src/topsky/map/mod.rs
+++ b/src/topsky/map/mod.rs
@@ -364,13 +364,17 @@ pub(super) fn parse_colour(pair: Pair<Rule>) -> Option<ColourDef> {
         Rule::colourdef => {
             let mut colour = pair.into_inner();
             let name = colour.next().unwrap().as_str().to_string();
-            let r = colour.next().unwrap().as_str().parse().unwrap();
-            let g = colour.next().unwrap().as_str().parse().unwrap();
-            let b = colour.next().unwrap().as_str().parse().unwrap();
-            Some(ColourDef {
-                name,
-                colour: Colour::from_rgb(r, g, b),
-            })
+            let mut component = || colour.next().unwrap().as_str().parse();
+            match (component(), component(), component()) {
+                (Ok(r), Ok(g), Ok(b)) => Some(ColourDef {
+                    name,
+                    colour: Colour::from_rgb(r, g, b),
+                }),
+                _ => {
+                    warn!("Could not parse colour {name}");
+                    None
+                }
+            }
         }
         Rule::EOI => None,
         rule => unreachable!("{rule:?}"),
-- 
2.43.0


From 866e13057e1f8f01d3b28fc621b45e109287e645 Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Wed, 18 Nov 2026 23:25:54 +0000
Subject: [PATCH 10/23] fix: do not panic on non-ASCII digits in coordinate and
 range/bearing designators

---
 src/adaptation/locations/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/adaptation/locations/mod.rs b/src/adaptation/locations/mod.rs
index 4cda431..fd5f74d 100644
--- a/src/adaptation/locations/mod.rs
+++ b/src/adaptation/locations/mod.rs
@@ -166,12 +166,12 @@ pub struct Locations {
 
 fn coord_regex() -> &'static Regex {
     static COORD_RE: OnceLock<Regex> = OnceLock::new();
-    COORD_RE.get_or_init(|| Regex::new(r"^(\d{1,6})(N|S)(\d{2,7})(E|W)$").unwrap())
+    COORD_RE.get_or_init(|| Regex::new(r"^([0-9]{1,6})(N|S)([0-9]{2,7})(E|W)$").unwrap())
 }
 
 fn range_bearing_regex() -> &'static Regex {
     static RANGE_BEARING_RE: OnceLock<Regex> = OnceLock::new();
-    RANGE_BEARING_RE.get_or_init(|| Regex::new(r"^([0-9A-Z]{2,5})(\d{3})(\d{3})$").unwrap())
+    RANGE_BEARING_RE.get_or_init(|| Regex::new(r"^([0-9A-Z]{2,5})([0-9]{3})([0-9]{3})$").unwrap())
 }
 
 impl Locations {
-- 
2.43.0


From e31944d2e0af4756585bc5c50741c5f97709b399 Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Wed, 18 Nov 2026 23:25:54 +0000
Subject: [PATCH 11/23] fix: choose the plugin directory deterministically if
 several are configured

---
 src/prf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/prf.rs b/src/prf.rs
index 4883cfa..320f309 100644
--- a/src/prf.rs
+++ b/src/prf.rs
@@ -4,6 +4,7 @@ use std::ffi::OsStr;
 use std::io;
 use std::path::{Path, PathBuf};
 
+use itertools::Itertools as _;
 use pest::{iterators::Pair, Parser};
 use pest_derive::Parser;
 use serde::Serialize;
@@ -89,6 +90,7 @@ impl Prf {
         self.settings
             .0
             .iter()
+            .sorted()
             .find_map(|(_, v)| {
                 let path = self.join_settings_path(v);
                 if path.file_name() == Some(OsStr::new("Squawks.dll")) {
@@ -106,6 +108,7 @@ impl Prf {
         self.settings
             .0
             .iter()
+            .sorted()
             .find_map(|(_, v)| {
                 let path = self.join_settings_path(v);
                 if path.file_name() == Some(OsStr::new("TopSky.dll")) {
-- 
2.43.0


From f35229c8b81e1602ffd14de9d96bcc77df047dd7 Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Wed, 18 Nov 2026 23:25:54 +0000
Subject: [PATCH 12/23] fix: report missing .prf settings as an error instead
 of panicking

---
 src/adaptation/mod.rs |  1 +
 src/prf.rs            | 22 ++++++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/src/adaptation/mod.rs b/src/adaptation/mod.rs
index 73144f5..1d24a70 100644
--- a/src/adaptation/mod.rs
+++ b/src/adaptation/mod.rs
@@ -213,6 +213,7 @@ pub struct Adaptation {
 
 impl Adaptation {
     pub fn from_prf(prf: &Prf) -> AdaptationResult {
+        prf.check_required_settings()?;
         // TODO parallelise/asyncify where able
         let sct = Sct::parse(&fs_err::read(prf.sct_path())?)?;
         let ese = Ese::parse(&fs_err::read(prf.ese_path())?)?;
diff --git a/src/prf.rs b/src/prf.rs
index 320f309..1a9699b 100644
--- a/src/prf.rs
+++ b/src/prf.rs
@@ -21,6 +21,8 @@ pub enum PrfError {
     FileRead(#[from] io::Error),
     #[error("failed to parse .prf file: {0}")]
     Parse(#[from] pest::error::Error<Rule>),
+    #[error("missing setting in .prf file: {0}")]
+    MissingSetting(&'static str),
 }
 
 #[derive(Parser)]
@@ -44,6 +46,26 @@ impl Prf {
             current_dir().unwrap().join(normalised_path)
         }
     }
+    /// Checks that all settings the non-optional paths are derived from are present.
+    pub(crate) fn check_required_settings(&self) -> Result<(), PrfError> {
+        [
+            "sector",
+            "airways",
+            "airportcoords",
+            "airlines",
+            "aircraft",
+            "airports",
+            "SettingsfileSYMBOLOGY",
+        ]
+        .into_iter()
+        .find(|key| {
+            !self
+                .settings
+                .contains_key(&("Settings".to_string(), (*key).to_string()))
+        })
+        .map_or(Ok(()), |key| Err(PrfError::MissingSetting(key)))
+    }
+
     pub fn sct_path(&self) -> PathBuf {
         self.join_settings_path(&self.settings.0[&("Settings".to_string(), "sector".to_string())])
     }
-- 
2.43.0


From e2fef27d899e37d8090c1747de546a914ac61677 Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Wed, 18 Nov 2026 23:26:48 +0000
Subject: [PATCH 13/23] fix: make sector ids and borders independent of hash
 map order

---
 src/adaptation/sectors.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/adaptation/sectors.rs b/src/adaptation/sectors.rs
index d21f579..95f6018 100644
--- a/src/adaptation/sectors.rs
+++ b/src/adaptation/sectors.rs
@@ -5,6 +5,7 @@ use std::{
 
 use bevy_derive::Deref;
 use geo::{Coord, Line, LineString, Polygon, Winding};
+use itertools::Itertools as _;
 use multimap::MultiMap;
 use serde::{Deserialize, Serialize};
 use tracing::warn;
@@ -99,7 +100,7 @@ fn polygon_from_ese(sector: &ese::Sector) -> Option<LineString> {
         return None;
     }
 
-    let line_ring = if let Some(start_point) = points.iter().next() {
+    let line_ring = if let Some(start_point) = points.iter().min_by_key(|p| (p.x, p.y)) {
         let mut stack = vec![*start_point];
         let mut line_ring = vec![];
         let mut current = *start_point;
@@ -139,7 +140,8 @@ fn polygon_from_ese(sector: &ese::Sector) -> Option<LineString> {
 
 impl Sectors {
     pub fn from_ese(ese: &Ese) -> (HashMap<String, Volume>, Sectors) {
-        let (by_priorities_filters, volumes) = ese.sectors.iter().fold(
+        let ese_sectors = ese.sectors.iter().sorted_by_key(|(id, _)| *id);
+        let (by_priorities_filters, volumes) = ese_sectors.fold(
             (TwoKeyMultiMap(MultiMap::new()), HashMap::new()),
             |(mut sectors, mut volumes), (id, sector)| {
                 if let Some(polygon) = polygon_from_ese(sector) {
-- 
2.43.0


From 74f8b43ca86dd499b277e4173b6a223d24916018 Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Wed, 18 Nov 2026 23:26:48 +0000
Subject: [PATCH 14/23] fix: resolve line style name collisions
 deterministically

---
 src/adaptation/line_styles.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/adaptation/line_styles.rs b/src/adaptation/line_styles.rs
index 4c5ba16..eca0f0f 100644
--- a/src/adaptation/line_styles.rs
+++ b/src/adaptation/line_styles.rs
@@ -1,6 +1,7 @@
 use std::collections::HashMap;
 
 use bevy_reflect::Reflect;
+use itertools::Itertools as _;
 use serde::{Deserialize, Serialize};
 
 use crate::topsky::Topsky;
@@ -41,6 +42,7 @@ pub fn line_styles_from_topsky(topsky: &Option<Topsky>) -> HashMap<String, Optio
         .map(|t| {
             t.line_styles
                 .iter()
+                .sorted_by_key(|(name, _)| *name)
                 .map(|(name, style)| {
                     (
                         name.to_uppercase(),
-- 
2.43.0


From 47fb1e352cfde0b3094e2550464ef6f067ed3c47 Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Wed, 18 Nov 2026 23:27:46 +0000
Subject: [PATCH 15/23] fix: consider all equally named nav elements in
 contains_nav_element

---
 src/adaptation/locations/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/adaptation/locations/mod.rs b/src/adaptation/locations/mod.rs
index fd5f74d..6dfc1de 100644
--- a/src/adaptation/locations/mod.rs
+++ b/src/adaptation/locations/mod.rs
@@ -439,18 +439,21 @@ impl Locations {
     pub fn contains_nav_element(&self, designator: &str, position: GraphPosition) -> bool {
         let other = position.0.quantize();
         self.vors
-            .get(designator)
-            .iter()
+            .get_vec(designator)
+            .into_iter()
+            .flatten()
             .any(|vor| vor.coordinate.quantize() == other)
             || self
                 .ndbs
-                .get(designator)
-                .iter()
+                .get_vec(designator)
+                .into_iter()
+                .flatten()
                 .any(|ndb| ndb.coordinate.quantize() == other)
             || self
                 .fixes
-                .get(designator)
-                .iter()
+                .get_vec(designator)
+                .into_iter()
+                .flatten()
                 .any(|fix| fix.coordinate.quantize() == other)
     }
 }
-- 
2.43.0


From 32cfb44ff78e2d37ba5438b831a72333743e029d Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Wed, 18 Nov 2026 23:31:18 +0000
Subject: [PATCH 16/23] fix: carry rounded seconds into minutes and degrees
 when formatting coordinates

---
 src/lib.rs | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 65cd725..aa598a8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -61,14 +61,14 @@ impl From<&str> for Sign {
 
 type DegMinSec = (Sign, u16, u8, f64);
 
-fn decimal_to_dms(decimal: f64, is_latitude: bool) -> (u8, u8, f64, char) {
+fn decimal_to_dms(decimal: f64, is_latitude: bool) -> (u64, u64, f64, char) {
     let is_negative = decimal.is_sign_negative();
-    let abs = decimal.abs();
+    // round once to the precision of the format, so that seconds carry into minutes and degrees
+    let milliseconds = (decimal.abs() * 3_600_000.0).round() as u64;
 
-    let degrees = abs.floor() as u8;
-    let minutes_f64 = abs.fract() * 60.0;
-    let minutes = minutes_f64.floor() as u8;
-    let seconds = minutes_f64.fract() * 60.0;
+    let degrees = milliseconds / 3_600_000;
+    let minutes = milliseconds / 60_000 % 60;
+    let seconds = (milliseconds % 60_000) as f64 / 1_000.0;
 
     let direction = match (is_latitude, is_negative) {
         (true, false) => 'N',
@@ -106,21 +106,13 @@ impl DegMinSecExt for Coord {
     }
 
     fn lat_deg_min_sec_fmt(&self) -> String {
-        let lat = decimal_to_dms(self.y, true);
-        let deg = lat.0;
-        let carry_rounded_sec = (lat.2 - 60.).abs() < 0.000_001;
-        let min = lat.1 + u8::from(carry_rounded_sec);
-        let sec = if carry_rounded_sec { 0.0 } else { lat.2 };
-        format!("{}{deg:03}.{min:02}.{sec:06.3}", lat.3)
+        let (deg, min, sec, hemi) = decimal_to_dms(self.y, true);
+        format!("{hemi}{deg:03}.{min:02}.{sec:06.3}")
     }
 
     fn lng_deg_min_sec_fmt(&self) -> String {
-        let lon = decimal_to_dms(self.x, false);
-        let deg = lon.0;
-        let carry_rounded_sec = (lon.2 - 60.).abs() < 0.000_001;
-        let min = lon.1 + u8::from(carry_rounded_sec);
-        let sec = if carry_rounded_sec { 0.0 } else { lon.2 };
-        format!("{}{deg:03}.{min:02}.{sec:06.3}", lon.3)
+        let (deg, min, sec, hemi) = decimal_to_dms(self.x, false);
+        format!("{hemi}{deg:03}.{min:02}.{sec:06.3}")
     }
 }
 impl DegMinSecExt for Point {
-- 
2.43.0


From 9f2e6effaff3423e544e6849045ec6421a11e1a0 Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Wed, 18 Nov 2026 23:32:23 +0000
Subject: [PATCH 17/23] fix: keep zero-length lines when writing .sct files

---
 src/sct.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sct.rs b/src/sct.rs
index 5e05637..91dbb06 100644
--- a/src/sct.rs
+++ b/src/sct.rs
@@ -264,7 +264,13 @@ impl ToEuroscope for Location {
 impl ToEuroscope for ColouredLines {
     fn to_euroscope(&self) -> String {
         let mut lines = self.lines.iter().flat_map(|line| {
-            line.points.iter().tuple_windows().map(|(start, end)| {
+            // lines of no length are stored as a single point
+            let degenerate = match line.points.as_slice() {
+                [point] => Some((point, point)),
+                _ => None,
+            };
+            let segments = line.points.iter().tuple_windows().chain(degenerate);
+            segments.map(|(start, end)| {
                 format!(
                     "{} {}{}",
                     start.to_euroscope(),
-- 
2.43.0


From 0e7a3d0b809f70aadfa5d084a599d23177834b99 Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Wed, 18 Nov 2026 23:57:03 +0000
Subject: [PATCH 18/23] fix: a working directory that is gone is an error, not
 a panic

---
 src/prf.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/prf.rs b/src/prf.rs
index 1a9699b..48ee648 100644
--- a/src/prf.rs
+++ b/src/prf.rs
@@ -43,7 +43,10 @@ impl Prf {
         if let Some(rel_path) = normalised_path.strip_prefix('/') {
             self.path.parent().unwrap().join(rel_path)
         } else {
-            current_dir().unwrap().join(normalised_path)
+            current_dir().map_or_else(
+                |_| PathBuf::from(&normalised_path),
+                |dir| dir.join(&normalised_path),
+            )
         }
     }
     /// Checks that all settings the non-optional paths are derived from are present.
-- 
2.43.0


From eb7b4053d8c5cb847b122d4216fdd816558c7882 Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Wed, 18 Nov 2026 23:57:03 +0000
Subject: [PATCH 19/23] fix: name the .prf or overlay that cannot be resolved

---
 src/adaptation/mod.rs | 2 +-
 src/prf.rs            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/adaptation/mod.rs b/src/adaptation/mod.rs
index 1d24a70..b7ec5a0 100644
--- a/src/adaptation/mod.rs
+++ b/src/adaptation/mod.rs
@@ -144,7 +144,7 @@ pub enum AdaptationError {
 }
 
 fn normalise_path(base: &Path, to_normalise: PathBuf) -> Result<PathBuf, AdaptationError> {
-    Ok(base.join(to_normalise).canonicalize()?)
+    Ok(fs_err::canonicalize(base.join(to_normalise))?)
 }
 
 #[derive(Clone, Debug, Deserialize)]
diff --git a/src/prf.rs b/src/prf.rs
index 48ee648..208a376 100644
--- a/src/prf.rs
+++ b/src/prf.rs
@@ -165,7 +165,7 @@ impl Prf {
 
         Ok(Prf {
             settings: TwoKeyMap(settings),
-            path: path.canonicalize()?,
+            path: fs_err::canonicalize(path)?,
         })
     }
 }
-- 
2.43.0


From 745dd45b7abbd4f5da43b7465cfac60cd95504c7 Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Thu, 19 Nov 2026 00:12:16 +0000
Subject: [PATCH 20/23] fix: recognise the first line of .sct items with mixed
 ends, comments or no newline

---
 src/pest/sct.pest | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pest/sct.pest b/src/pest/sct.pest
index f2bb1ed..23d9803 100644
--- a/src/pest/sct.pest
+++ b/src/pest/sct.pest
@@ -83,8 +83,7 @@ name = @{ (!(NL | "\t" | "[") ~ ANY)* }
 non_coordinate_name = { (!(sct_coordinate | NL) ~ ANY)* }
 non_coordinate_or_double_fix_name = ${
   (!(
-    ((WHITESPACE+ ~ sct_coordinate){2} ~ (WHITESPACE+ ~ colour_name)? ~ NL)
-    | ((WHITESPACE+ ~ airway_fix){2} ~ (WHITESPACE+ ~ colour_name)? ~ NL)
+    ((WHITESPACE+ ~ (sct_coordinate | airway_fix)){2} ~ (WHITESPACE+ ~ colour_name)? ~ WHITESPACE* ~ COMMENT? ~ (NEWLINE | EOI))
     | "[" | "]"
   ) ~ ANY)+
 }
-- 
2.43.0


From 834b57af8582b2979f0bed7a8e5ad57d868599da Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Thu, 19 Nov 2026 03:06:10 +0000
Subject: [PATCH 21/23] fix: name the overlays when applying them fails

---
 src/adaptation/mod.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/adaptation/mod.rs b/src/adaptation/mod.rs
index b7ec5a0..e5a61da 100644
--- a/src/adaptation/mod.rs
+++ b/src/adaptation/mod.rs
@@ -282,13 +282,12 @@ impl Adaptation {
         }
 
         let mut jsonnet = serde_json::to_string(&self)?;
+        let mut overlays = vec![];
 
         for path in jsonnet_paths {
-            write!(
-                jsonnet,
-                "\n + (import {})",
-                escape_string_json(&path.as_ref().display().to_string())
-            )?;
+            let path = path.as_ref().display().to_string();
+            write!(jsonnet, "\n + (import {})", escape_string_json(&path))?;
+            overlays.push(path);
         }
         trace!("jsonnet_file: {jsonnet}");
 
@@ -298,13 +297,21 @@ impl Adaptation {
         let state = state_builder.build();
         let _enter = state.enter();
 
+        // errors while reading an import do not name the file
+        let jsonnet_error = |e: jrsonnet_evaluator::Error| {
+            let message = e.to_string();
+            AdaptationError::Jsonnet(format!(
+                "{} (applying {})",
+                message.trim_end(),
+                overlays.join(", ")
+            ))
+        };
+
         let merged_jsonnet_val = state
             .evaluate_snippet("combined.jsonnet", jsonnet)
-            .map_err(|e| AdaptationError::Jsonnet(e.to_string()))?;
+            .map_err(jsonnet_error)?;
 
-        let json_string = merged_jsonnet_val
-            .to_string()
-            .map_err(|e| AdaptationError::Jsonnet(e.to_string()))?;
+        let json_string = merged_jsonnet_val.to_string().map_err(jsonnet_error)?;
 
         let mut result: Self = serde_json::from_str(&json_string)?;
         // The `sector_index` field is `#[serde(skip)]`, so the freshly deserialized value
-- 
2.43.0


From 2af94a1aa96c9007b6e4fac773ba9116b0652fbc Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Thu, 19 Nov 2026 05:59:04 +0000
Subject: [PATCH 22/23] fix: accept .ese, airway.txt and isec.txt whose last
 line has no line end

---
 src/pest/airway.pest |  2 +-
 src/pest/ese.pest    | 28 +++++++++++++++-------------
 src/pest/isec.pest   |  2 +-
 3 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/pest/airway.pest b/src/pest/airway.pest
index 7b3850f..37aaf1c 100644
--- a/src/pest/airway.pest
+++ b/src/pest/airway.pest
@@ -3,7 +3,7 @@ airways = { SOI ~ NL? ~ airway+ ~ EOI}
 airway = {
   designator ~ "\t" ~ coord ~ "\t" ~ "14" ~ "\t" ~ designator ~ "\t" ~ airway_type
   ~ (no_neighbour | neighbour)
-  ~ (no_neighbour | neighbour) ~ NL
+  ~ (no_neighbour | neighbour) ~ (NL | &EOI)
 }
 
 airway_type = { "B" | "H" | "L" | "" }
diff --git a/src/pest/ese.pest b/src/pest/ese.pest
index bf3e030..c982233 100644
--- a/src/pest/ese.pest
+++ b/src/pest/ese.pest
@@ -7,14 +7,16 @@ section = _{
   | unparsed_section
 }
 
-line = _{ broken ~ NL }
+// the last line of the file needs no line end
+END = _{ NL | &EOI }
+line = _{ broken ~ NL | (!("[" | NEWLINE) ~ ANY)+ ~ &EOI }
 
 section_header = _{ "[" ~ header_name ~ "]" }
 
-position_section = { "[POSITIONS]" ~ NL ~ (position ~ NL)* }
-airspace_section = { "[AIRSPACE]" ~ NL ~ (sectorline | circle_sectorline | display_sectorline | sector | cop | fir_cop | msaw)* }
-sidsstars_section = { "[SIDSSTARS]" ~ NL ~ ((sid | star) ~ NL)* }
-unparsed_section = { (section_header ~ NL ~ line*) }
+position_section = { "[POSITIONS]" ~ END ~ (position ~ END)* }
+airspace_section = { "[AIRSPACE]" ~ END ~ (sectorline | circle_sectorline | display_sectorline | sector | cop | fir_cop | msaw)* }
+sidsstars_section = { "[SIDSSTARS]" ~ END ~ ((sid | star) ~ END)* }
+unparsed_section = { (section_header ~ END ~ line*) }
 
 position = {
   colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ frequency ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":"
@@ -26,11 +28,11 @@ squawk = @{ "+"? ~ ASCII_DIGIT{1,4} }
 
 cop = {
   "COPX:" ~ prev ~ ":" ~ dep_rwy ~ ":" ~ cop_def ~ ":" ~ after ~ ":" ~ arr_rwy ~ ":" ~ sctx ~ ":"
-  ~ sctn ~ ":" ~ alt_clb ~ ":" ~ alt_des ~ ":" ~ cop_description ~ NL
+  ~ sctn ~ ":" ~ alt_clb ~ ":" ~ alt_des ~ ":" ~ cop_description ~ END
 }
 fir_cop = {
   "FIR_COPX:" ~ prev ~ ":" ~ dep_rwy ~ ":" ~ cop_def ~ ":" ~ after ~ ":" ~ arr_rwy ~ ":" ~ sctx ~ ":"
-  ~ sctn ~ ":" ~ alt_clb ~ ":" ~ alt_des ~ ":" ~ cop_description ~ NL
+  ~ sctn ~ ":" ~ alt_clb ~ ":" ~ alt_des ~ ":" ~ cop_description ~ END
 }
 prev = _{ wildcard | colon_delimited_text }
 dep_rwy = _{ wildcard | designator }
@@ -43,17 +45,17 @@ alt_clb = _{ wildcard | pos_integer }
 alt_des = _{ wildcard | pos_integer }
 cop_description = _{ colon_delimited_text }
 
-sectorline = { "SECTORLINE:" ~ colon_delimited_text ~ NL ~ ((display | coord) ~ NL)* }
+sectorline = { "SECTORLINE:" ~ colon_delimited_text ~ END ~ ((display | coord) ~ END)* }
 display = { "DISPLAY:" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text }
 
 circle_sectorline = {
-  "CIRCLE_SECTORLINE:" ~ colon_delimited_text ~ ":" ~ fix_designator ~ ":" ~ decimal ~ NL
-  ~ (display ~ NL)*
+  "CIRCLE_SECTORLINE:" ~ colon_delimited_text ~ ":" ~ fix_designator ~ ":" ~ decimal ~ END
+  ~ (display ~ END)*
 }
 
-display_sectorline = { "DISPLAY_SECTORLINE:" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ NL }
+display_sectorline = { "DISPLAY_SECTORLINE:" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ END }
 
-sector = { "SECTOR:" ~ colon_delimited_text ~ ":" ~ pos_integer ~ ":" ~ pos_integer ~ NL ~ (sector_subsettings ~ NL)* }
+sector = { "SECTOR:" ~ colon_delimited_text ~ ":" ~ pos_integer ~ ":" ~ pos_integer ~ END ~ (sector_subsettings ~ END)* }
 sector_subsettings = _{ owner | altowner | border | guest | active | depapt | arrapt }
 owner = { "OWNER" ~ (":" ~ colon_delimited_text)+ }
 altowner = { "ALTOWNER:" ~ colon_delimited_text ~ (":" ~ colon_delimited_text)+ }
@@ -66,7 +68,7 @@ sct = _{ colon_delimited_text }
 adep = _{ wildcard | designator }
 ades = _{ wildcard | designator }
 
-msaw = { "MSAW:" ~ colon_delimited_text ~ ":" ~ pos_integer ~ NL ~ (coord ~ NL)+ }
+msaw = { "MSAW:" ~ colon_delimited_text ~ ":" ~ pos_integer ~ NL ~ (coord ~ END)+ }
 
 sid = { "SID:" ~ designator ~ ":" ~ (runway_designator | none) ~ ":" ~ colon_delimited_text ~ ":" ~ route }
 star = { "STAR:" ~ designator ~ ":" ~ (runway_designator | none) ~ ":" ~ colon_delimited_text ~ ":" ~ route }
diff --git a/src/pest/isec.pest b/src/pest/isec.pest
index 9920c56..23f5b99 100644
--- a/src/pest/isec.pest
+++ b/src/pest/isec.pest
@@ -1,7 +1,7 @@
 wpts = { SOI ~ NL? ~ wpt+ ~ EOI}
 
 wpt = {
-  designator ~ coord ~ "15" ~ NL
+  designator ~ coord ~ "15" ~ (NL | &EOI)
 }
 
 designator = ${ (ASCII_ALPHA_UPPER | ASCII_DIGIT)+ }
-- 
2.43.0


From 985f7533571d60073b0105eb6d4b43ae41549663 Mon Sep 17 00:00:00 2001
From: vp <x@x>
Date: Thu, 19 Nov 2026 07:13:30 +0000
Subject: [PATCH 23/23] fix: constraints whose names contain the key's
 separator overwrote each other

---
 src/ese.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ese.rs b/src/ese.rs
index c3c3f47..a7bbce5 100644
--- a/src/ese.rs
+++ b/src/ese.rs
@@ -339,8 +339,12 @@ impl Constraint {
     /// This allows indexing in `HashMap`, to be able to override easily.
     #[must_use]
     pub fn key(&self) -> String {
-        fn opt(f: Option<&str>) -> &str {
-            f.unwrap_or("*")
+        // a separator within a field must not read as one between fields
+        fn escape(f: &str) -> String {
+            f.replace('\\', "\\\\").replace('#', "\\#")
+        }
+        fn opt(f: Option<&str>) -> String {
+            escape(f.unwrap_or("*"))
         }
         format!(
             "{}#{}#{}#{}#{}#{}#{}",
@@ -349,8 +353,8 @@ impl Constraint {
             opt(self.subsequent_fix.as_deref()),
             opt(self.arrival_runway.as_deref()),
             opt(self.fix.as_deref()),
-            self.exit_sector,
-            self.entry_sector,
+            escape(&self.exit_sector),
+            escape(&self.entry_sector),
         )
     }
 }
-- 
2.43.0

