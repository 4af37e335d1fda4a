From 1d1f9d22f96ffedb1e039a0d2d52c7d8be953bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:28 +0000
Subject: [PATCH 01/29] fix: don't underflow the line counter on an empty
 section at the end of a .osu file

---
 src/osu_file/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index 6999749..56d52c3 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -301,7 +301,7 @@ impl FromStr for OsuFile {
             }
 
             section_parsed.push(section_name);
-            line_number += section.lines().count() - 1;
+            line_number += section.lines().count().saturating_sub(1);
         }
 
         Ok(OsuFile {
-- 
2.43.0


From 0db4cf8fc6e5912f2d353196c62973ae17bd3275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 02/29] fix: an empty section no longer swallows the section
 that follows it

---
 src/parsers.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index 055d853..4fdaf6d 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -139,7 +139,19 @@ pub fn square_section<'a>(
     let section_close = tag("]");
     let section_name_inner = take_till(|c: char| c == ']' || c == '\n');
     let section_name = delimited(section_open, section_name_inner, section_close);
-    let section_until = alt((take_until("\n["), rest));
+    let mut section_until = alt((take_until("\n["), rest));
+    let mut header = tuple((multispace0, section_name, multispace0));
 
-    tuple((multispace0, section_name, multispace0, section_until))
+    move |s| {
+        let (s, (ws, name, ws2)) = header(s)?;
+
+        // the whitespace could have ended at the next section's header, in which case this section is empty
+        let (s, section) = if ws2.ends_with('\n') && s.starts_with('[') {
+            (s, "")
+        } else {
+            section_until(s)?
+        };
+
+        Ok((s, (ws, name, ws2, section)))
+    }
 }
-- 
2.43.0


From 34606092ec0c184a5d06983ee76d798384aa7906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 03/29] fix: report malformed section headers instead of
 silently dropping the rest of the file

---
 src/osu_file/mod.rs       | 20 ++++++++++++++++++--
 src/osu_file/osb/error.rs |  8 ++++++++
 src/osu_file/osb/mod.rs   | 20 ++++++++++++++++++--
 3 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index 56d52c3..0d1b7f0 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -207,7 +207,7 @@ impl FromStr for OsuFile {
             .lines()
             .take_while(|s| {
                 let s = s.trim();
-                !s.trim().starts_with('[') && !s.trim().ends_with(']')
+                s.starts_with("//") || (!s.starts_with('[') && !s.ends_with(']'))
             })
             .count();
 
@@ -231,7 +231,7 @@ impl FromStr for OsuFile {
             .collect::<Vec<_>>()
             .join("\n");
 
-        let (_, sections) = many0(square_section())(&s).unwrap();
+        let (unparsed, sections) = many0(square_section())(&s).unwrap();
 
         let mut section_parsed = Vec::with_capacity(8);
 
@@ -304,6 +304,22 @@ impl FromStr for OsuFile {
             line_number += section.lines().count().saturating_sub(1);
         }
 
+        // whatever couldn't be parsed as a section starts with an invalid section name line
+        let section_name_line = unparsed.trim_start();
+        if let Some(name) = section_name_line.lines().next() {
+            line_number += unparsed[..unparsed.len() - section_name_line.len()]
+                .lines()
+                .count();
+
+            let name = name.trim_end();
+            let err = match name.strip_prefix('[') {
+                Some(name) => ParseError::SectionNameNoCloseBracket(name.to_string()),
+                None => ParseError::SectionNameNoOpenBracket(name.to_string()),
+            };
+
+            return Err(Error::new(err, line_number));
+        }
+
         Ok(OsuFile {
             version,
             general,
diff --git a/src/osu_file/osb/error.rs b/src/osu_file/osb/error.rs
index 7d08d20..d69b2ae 100644
--- a/src/osu_file/osb/error.rs
+++ b/src/osu_file/osb/error.rs
@@ -15,6 +15,14 @@ pub enum ParseError {
     /// Unknown section name defined.
     #[error("There is an unknown section")]
     UnknownSection,
+    /// Error used when the opening bracket for the section is missing.
+    #[error("The opening bracket of the section is missing, expected `[` before {0}")]
+    #[strum(disabled)]
+    SectionNameNoOpenBracket(String),
+    /// Error used when the closing bracket for the section is missing.
+    #[error("The closing bracket of the section is missing, expected `]` after {0}")]
+    #[strum(disabled)]
+    SectionNameNoCloseBracket(String),
     #[error(transparent)]
     #[strum(disabled)]
     ParseVariableError(#[from] ParseVariableError),
diff --git a/src/osu_file/osb/mod.rs b/src/osu_file/osb/mod.rs
index b483a34..3792096 100644
--- a/src/osu_file/osb/mod.rs
+++ b/src/osu_file/osb/mod.rs
@@ -28,7 +28,7 @@ impl VersionedFromStr for Osb {
             .lines()
             .take_while(|s| {
                 let s = s.trim();
-                !s.trim().starts_with('[') && !s.trim().ends_with(']')
+                s.starts_with("//") || (!s.starts_with('[') && !s.ends_with(']'))
             })
             .count();
 
@@ -54,7 +54,7 @@ impl VersionedFromStr for Osb {
 
         // we get sections
         // only valid sections currently are [Variables] [Events]
-        let (_, sections) = many0(square_section())(&s).unwrap();
+        let (unparsed, sections) = many0(square_section())(&s).unwrap();
 
         let mut section_parsed = Vec::with_capacity(2);
         let mut line_number = pre_section_count;
@@ -105,6 +105,22 @@ impl VersionedFromStr for Osb {
             line_number += section.lines().count().saturating_sub(1);
         }
 
+        // whatever couldn't be parsed as a section starts with an invalid section name line
+        let section_name_line = unparsed.trim_start();
+        if let Some(name) = section_name_line.lines().next() {
+            line_number += unparsed[..unparsed.len() - section_name_line.len()]
+                .lines()
+                .count();
+
+            let name = name.trim_end();
+            let err = match name.strip_prefix('[') {
+                Some(name) => ParseError::SectionNameNoCloseBracket(name.to_string()),
+                None => ParseError::SectionNameNoOpenBracket(name.to_string()),
+            };
+
+            return Err(Error::new(err, line_number));
+        }
+
         Ok(Some(Osb { events, variables }))
     }
 }
-- 
2.43.0


From d868b16c050926c4f84728cf8be9130bc5065f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 04/29] fix: return an error for non-integer BeatmapID and
 BeatmapSetID instead of panicking

---
 src/osu_file/metadata/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/metadata/mod.rs b/src/osu_file/metadata/mod.rs
index 1078531..92ffea7 100644
--- a/src/osu_file/metadata/mod.rs
+++ b/src/osu_file/metadata/mod.rs
@@ -1,5 +1,7 @@
 pub mod error;
 
+use std::num::ParseIntError;
+
 use nom::{
     bytes::complete::{tag, take_till},
     multi::separated_list0,
@@ -30,8 +32,8 @@ versioned_field!(Tags, Vec<String>, no_versions,
     } -> (),
     |v| { v.join(" ") }, Vec::new()
 );
-versioned_field!(BeatmapID, Integer, no_versions, |s| { Ok(s.parse::<Integer>().unwrap()) } -> (),,);
-versioned_field!(BeatmapSetID, Integer, no_versions, |s| { Ok(s.parse::<Integer>().unwrap()) } -> (),,);
+versioned_field!(BeatmapID, Integer, no_versions, |s| { s.parse() } -> ParseIntError,,);
+versioned_field!(BeatmapSetID, Integer, no_versions, |s| { s.parse() } -> ParseIntError,,);
 
 general_section!(
     /// A struct representing the metadata section of an osu file.
-- 
2.43.0


From 589afab1d56f6f9246210f6695288ad855499673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 05/29] fix: event lines that only start like a known event
 header are unknown events, not a panic

---
 src/osu_file/events/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index 140fc56..9202940 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -4,7 +4,7 @@ pub mod normal_event;
 pub mod storyboard;
 
 use nom::branch::alt;
-use nom::combinator::{cut, eof, peek, success};
+use nom::combinator::{eof, peek, success};
 use nom::sequence::tuple;
 use nom::Parser;
 use nom::{bytes::complete::tag, combinator::rest, sequence::preceded};
@@ -62,7 +62,7 @@ impl Events {
         let background = || {
             peek(tuple((
                 tag::<_, _, nom::error::Error<_>>(normal_event::BACKGROUND_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::Background)
         };
@@ -72,7 +72,7 @@ impl Events {
                     tag(normal_event::VIDEO_HEADER),
                     tag(normal_event::VIDEO_HEADER_LONG),
                 )),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::Video)
         };
@@ -82,35 +82,35 @@ impl Events {
                     tag(normal_event::BREAK_HEADER),
                     tag(normal_event::BREAK_HEADER_LONG),
                 )),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::Break)
         };
         let colour_transformation = || {
             peek(tuple((
                 tag(normal_event::COLOUR_TRANSFORMATION_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::ColourTransformation)
         };
         let sprite_legacy = || {
             peek(tuple((
                 tag(normal_event::SPRITE_LEGACY_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::SpriteLegacy)
         };
         let animation_legacy = || {
             peek(tuple((
                 tag(normal_event::ANIMATION_LEGACY_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::AnimationLegacy)
         };
         let sample_legacy = || {
             peek(tuple((
                 tag(normal_event::SAMPLE_LEGACY_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::SampleLegacy)
         };
-- 
2.43.0


From 0d7252a31dddd3839114d4860ae5e57c359c7b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 06/29] fix: find the first comma of a storyboard command by
 byte index

---
 src/osu_file/events/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index 9202940..81cb969 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -130,7 +130,7 @@ impl Events {
             // its a storyboard command
             if indent > 0 {
                 let cmd_parse = || {
-                    let line_without_header = match line.chars().position(|c| c == ',') {
+                    let line_without_header = match line.find(',') {
                         Some(i) => &line[i + 1..],
                         None => line,
                     };
-- 
2.43.0


From 5f74f5b79631bd1cd78f5369302c2b19677b5edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 07/29] fix: HitSound trigger custom sample sets with multiple
 digits, and fields after it

---
 src/osu_file/events/storyboard/types.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/events/storyboard/types.rs b/src/osu_file/events/storyboard/types.rs
index 8596fd0..4859dde 100644
--- a/src/osu_file/events/storyboard/types.rs
+++ b/src/osu_file/events/storyboard/types.rs
@@ -40,12 +40,18 @@ impl VersionedFromStr for TriggerType {
                             let mut fields = Vec::new();
                             let mut builder = String::with_capacity(256);
 
+                            let mut prev_is_numeric = false;
+
                             for (i, ch) in s.chars().enumerate() {
-                                if i != 0 && (ch.is_uppercase() || ch.is_numeric()) {
+                                // the custom sample set can have multiple digits
+                                if i != 0
+                                    && (ch.is_uppercase() || (ch.is_numeric() && !prev_is_numeric))
+                                {
                                     fields.push(builder.to_owned());
                                     builder.clear();
                                 }
                                 builder.push(ch);
+                                prev_is_numeric = ch.is_numeric();
                             }
 
                             fields.push(builder);
@@ -89,7 +95,7 @@ impl VersionedFromStr for TriggerType {
                                         } else {
                                             return Err(ParseTriggerTypeError::UnknownHitSoundType)
                                         }
-                                        _ => unreachable!("The check for field size is already done so this is impossible to reach")
+                                        _ => return Err(ParseTriggerTypeError::TooManyHitSoundFields),
                                     }
                                 field_parse_attempt_index += 1;
                             }
-- 
2.43.0


From 04399b656129989874c4b28e43b508d105973e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:55 +0000
Subject: [PATCH 08/29] fix: report an invalid animation loop type instead of
 panicking

---
 src/osu_file/events/storyboard/sprites.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osu_file/events/storyboard/sprites.rs b/src/osu_file/events/storyboard/sprites.rs
index b287a1a..085033b 100644
--- a/src/osu_file/events/storyboard/sprites.rs
+++ b/src/osu_file/events/storyboard/sprites.rs
@@ -177,6 +177,7 @@ impl VersionedFromStr for Object {
             ),
         );
         let loop_type = alt((
+            nothing().map(|_| LoopType::default(version).unwrap()),
             preceded(
                 context(ParseObjectError::MissingLoopType.into(), comma()),
                 context(
@@ -184,7 +185,6 @@ impl VersionedFromStr for Object {
                     consume_rest_versioned_type(version),
                 ),
             ),
-            nothing().map(|_| LoopType::default(version).unwrap()),
         ));
 
         let (_, object) = alt((
-- 
2.43.0


From 28e4914ddf53cfb24ad6a6b3009ccacd2659e31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 09/29] fix: break, video and colour events at the end of the
 integer range no longer overflow with the old version time offset

---
 src/osu_file/events/normal_event/mod.rs     |  4 +++-
 src/osu_file/events/normal_event/parsers.rs | 14 +++++++-------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/osu_file/events/normal_event/mod.rs b/src/osu_file/events/normal_event/mod.rs
index c77e49d..5957950 100644
--- a/src/osu_file/events/normal_event/mod.rs
+++ b/src/osu_file/events/normal_event/mod.rs
@@ -35,8 +35,10 @@ fn position_str(position: &Option<Position>) -> String {
 }
 
 fn time_to_string(time: Integer, version: Version) -> String {
+    // the time without the offset can be out of range of the `Integer` type
+    let time = i64::from(time);
     let time = if (3..=4).contains(&version) {
-        time - OLD_VERSION_TIME_OFFSET
+        time - i64::from(OLD_VERSION_TIME_OFFSET)
     } else {
         time
     };
diff --git a/src/osu_file/events/normal_event/parsers.rs b/src/osu_file/events/normal_event/parsers.rs
index e39d384..f2e79b7 100644
--- a/src/osu_file/events/normal_event/parsers.rs
+++ b/src/osu_file/events/normal_event/parsers.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    combinator::eof,
+    combinator::{eof, map_opt},
     error::context,
     sequence::{preceded, tuple},
     IResult, Parser,
@@ -45,11 +45,11 @@ pub fn start_time_offset<'a>(
 ) -> impl FnMut(&'a str) -> IResult<&'a str, Integer, nom::error::VerboseError<&'a str>> {
     context(
         error,
-        comma_field_type().map(move |time| {
+        map_opt(comma_field_type(), move |time: Integer| {
             if (3..=4).contains(&version) {
-                time + OLD_VERSION_TIME_OFFSET
+                time.checked_add(OLD_VERSION_TIME_OFFSET)
             } else {
-                time
+                Some(time)
             }
         }),
     )
@@ -61,11 +61,11 @@ pub fn end_time<'a>(
 ) -> impl FnMut(&'a str) -> IResult<&str, Integer, nom::error::VerboseError<&'a str>> {
     context(
         error,
-        consume_rest_type().map(move |end_time| {
+        map_opt(consume_rest_type(), move |end_time: Integer| {
             if (3..=4).contains(&version) {
-                end_time + OLD_VERSION_TIME_OFFSET
+                end_time.checked_add(OLD_VERSION_TIME_OFFSET)
             } else {
-                end_time
+                Some(end_time)
             }
         }),
     )
-- 
2.43.0


From d780d61de8032685b4b7b4c3767f16e7037b6c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:00 +0000
Subject: [PATCH 10/29] fix: don't overflow hit object and timing point times
 at the end of the decimal range with the old version time offset

---
 src/osu_file/hitobjects/mod.rs   | 12 ++++++------
 src/osu_file/timingpoints/mod.rs |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/osu_file/hitobjects/mod.rs b/src/osu_file/hitobjects/mod.rs
index 288011a..11d70a9 100644
--- a/src/osu_file/hitobjects/mod.rs
+++ b/src/osu_file/hitobjects/mod.rs
@@ -202,7 +202,7 @@ impl VersionedFromStr for HitObject {
             .map(|mut t: Decimal| {
                 if (3..=4).contains(&version) {
                     if let Either::Left(value) = t.get_mut() {
-                        *value += OLD_VERSION_TIME_OFFSET;
+                        *value = value.saturating_add(OLD_VERSION_TIME_OFFSET);
                     }
                 }
 
@@ -380,7 +380,7 @@ impl VersionedFromStr for HitObject {
                 .map(|mut t: Decimal| {
                     if (3..=4).contains(&version) {
                         if let Either::Left(value) = t.get_mut() {
-                            *value += OLD_VERSION_TIME_OFFSET;
+                            *value = value.saturating_add(OLD_VERSION_TIME_OFFSET);
                         }
                     }
 
@@ -421,7 +421,7 @@ impl VersionedFromStr for HitObject {
             .map(|mut t: Decimal| {
                 if (3..=4).contains(&version) {
                     if let Either::Left(value) = t.get_mut() {
-                        *value += OLD_VERSION_TIME_OFFSET;
+                        *value = value.saturating_add(OLD_VERSION_TIME_OFFSET);
                     }
                 }
 
@@ -459,7 +459,7 @@ impl VersionedToString for HitObject {
             self.position.y.to_string(),
             if (3..=4).contains(&version) {
                 match self.time.get() {
-                    Either::Left(value) => (value - OLD_VERSION_TIME_OFFSET).to_string(),
+                    Either::Left(value) => value.saturating_sub(OLD_VERSION_TIME_OFFSET).to_string(),
                     Either::Right(value) => value.to_string(),
                 }
             } else {
@@ -525,7 +525,7 @@ impl VersionedToString for HitObject {
             HitObjectParams::Spinner { end_time } => {
                 properties.push(if (3..=4).contains(&version) {
                     match end_time.get() {
-                        Either::Left(value) => (value - OLD_VERSION_TIME_OFFSET).to_string(),
+                        Either::Left(value) => value.saturating_sub(OLD_VERSION_TIME_OFFSET).to_string(),
                         Either::Right(value) => value.to_string(),
                     }
                 } else {
@@ -535,7 +535,7 @@ impl VersionedToString for HitObject {
             HitObjectParams::OsuManiaHold { end_time } => {
                 properties.push(if (3..=4).contains(&version) {
                     match end_time.get() {
-                        Either::Left(value) => (value - OLD_VERSION_TIME_OFFSET).to_string(),
+                        Either::Left(value) => value.saturating_sub(OLD_VERSION_TIME_OFFSET).to_string(),
                         Either::Right(value) => value.to_string(),
                     }
                 } else {
diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index 4662053..69fa7e0 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -287,7 +287,7 @@ impl VersionedFromStr for TimingPoint {
             .map(|mut t: Decimal| {
                 if (3..=4).contains(&version) {
                     if let Either::Left(value) = t.get_mut() {
-                        *value += OLD_VERSION_TIME_OFFSET;
+                        *value = value.saturating_add(OLD_VERSION_TIME_OFFSET);
                     }
                 }
 
@@ -448,7 +448,7 @@ impl VersionedToString for TimingPoint {
         let mut fields = vec![
             if (3..=4).contains(&version) {
                 match self.time.get() {
-                    Either::Left(value) => (value - OLD_VERSION_TIME_OFFSET).to_string(),
+                    Either::Left(value) => value.saturating_sub(OLD_VERSION_TIME_OFFSET).to_string(),
                     Either::Right(value) => value.to_string(),
                 }
             } else {
-- 
2.43.0


From a910f074a0ddf5957351f0819b3da67e9a724d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 11/29] fix: timing point sample index above the integer range
 was written as a negative number

---
 src/osu_file/timingpoints/types.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/osu_file/timingpoints/types.rs b/src/osu_file/timingpoints/types.rs
index 824afeb..c6d64be 100644
--- a/src/osu_file/timingpoints/types.rs
+++ b/src/osu_file/timingpoints/types.rs
@@ -179,18 +179,22 @@ impl VersionedFrom<u32> for SampleIndex {
 
 impl VersionedFrom<SampleIndex> for Integer {
     fn from(sample_index: SampleIndex, _: Version) -> Option<Self> {
-        let sample_index = match sample_index {
-            SampleIndex::OsuDefaultHitsounds => 0,
-            SampleIndex::Index(sample_index) => sample_index.get() as Integer,
-        };
-
-        Some(sample_index)
+        match sample_index {
+            SampleIndex::OsuDefaultHitsounds => Some(0),
+            SampleIndex::Index(sample_index) => sample_index.get().try_into().ok(),
+        }
     }
 }
 
 impl VersionedToString for SampleIndex {
-    fn to_string(&self, version: Version) -> Option<String> {
-        <i32 as VersionedFrom<SampleIndex>>::from(*self, version).map(|index| index.to_string())
+    fn to_string(&self, _: Version) -> Option<String> {
+        // the whole range of the index doesn't fit in an `Integer`
+        let index = match self {
+            SampleIndex::OsuDefaultHitsounds => 0,
+            SampleIndex::Index(index) => index.get(),
+        };
+
+        Some(index.to_string())
     }
 }
 
-- 
2.43.0


From 90de6bcf6b0620c94d927bb11063c7df195c5a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 12/29] fix: calculating the BPM or slider velocity of a timing
 point with an unusable beat length returns None instead of panicking

---
 src/osu_file/timingpoints/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index 69fa7e0..54c9394 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -152,13 +152,15 @@ impl TimingPoint {
     }
 
     /// Calculates BPM using the `beatLength` field when unherited.
-    /// - Returns `None` if the timing point is inherited or `beat_length` isn't a valid decimal.
+    /// - Returns `None` if the timing point is inherited, `beat_length` isn't a valid decimal, or the BPM isn't a representable number.
     pub fn calc_bpm(&self) -> Option<rust_decimal::Decimal> {
         match self.uninherited {
             Some(uninherited) => {
                 if uninherited {
                     match self.beat_length.get() {
-                        Either::Left(value) => Some(Self::beat_duration_ms_to_bpm(*value)),
+                        Either::Left(value) => rust_decimal::Decimal::ONE
+                            .checked_div(*value)?
+                            .checked_mul(dec!(60000)),
                         Either::Right(_) => None,
                     }
                 } else {
@@ -169,7 +171,7 @@ impl TimingPoint {
         }
     }
     /// Calculates the slider velocity multiplier when the timing point is inherited.
-    /// - Returns `None` if the timing point is uninherited or `beat_length` isn't a valid decimal.
+    /// - Returns `None` if the timing point is uninherited, `beat_length` isn't a valid decimal, or the multiplier isn't a representable number.
     pub fn calc_slider_velocity_multiplier(&self) -> Option<rust_decimal::Decimal> {
         match self.uninherited {
             Some(uninherited) => {
@@ -178,7 +180,7 @@ impl TimingPoint {
                 } else {
                     match self.beat_length.get() {
                         Either::Left(value) => {
-                            Some(rust_decimal::Decimal::ONE / (value / dec!(-100)))
+                            rust_decimal::Decimal::ONE.checked_div(value / dec!(-100))
                         }
                         Either::Right(_) => None,
                     }
-- 
2.43.0


From ad776d0dd57e3a5976f44cff4ea6847a8aed4573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 13/29] fix: animation frame names of a path without a file
 name

---
 src/osu_file/events/storyboard/sprites.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/osu_file/events/storyboard/sprites.rs b/src/osu_file/events/storyboard/sprites.rs
index 085033b..4a2282c 100644
--- a/src/osu_file/events/storyboard/sprites.rs
+++ b/src/osu_file/events/storyboard/sprites.rs
@@ -246,7 +246,10 @@ impl Animation {
         let mut file_names = Vec::with_capacity(self.frame_count as usize);
 
         let filepath = self.filepath.get();
-        let mut file_name = filepath.file_name().unwrap().to_string_lossy().to_string();
+        let mut file_name = match filepath.file_name() {
+            Some(file_name) => file_name.to_string_lossy().to_string(),
+            None => String::new(),
+        };
         let file_extension = match filepath.extension() {
             Some(extension) => {
                 let extension = format!(".{}", extension.to_string_lossy());
-- 
2.43.0


From dd33fa27752821dbb42233a606cee4c53d54a2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 14/29] fix: pushing to or setting the continuing fields of a
 command with fewer than two elements

---
 src/osu_file/events/storyboard/cmds/types.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/osu_file/events/storyboard/cmds/types.rs b/src/osu_file/events/storyboard/cmds/types.rs
index 26c2562..ed8ad2d 100644
--- a/src/osu_file/events/storyboard/cmds/types.rs
+++ b/src/osu_file/events/storyboard/cmds/types.rs
@@ -43,9 +43,7 @@ impl<T> ContinuingFields<T> {
         if let Some(last_continuing) = self.continuing.last() {
             if last_continuing.1.is_none() {
                 // find last 1 field
-                let last_field = if let Some(last_continuing_with_1) =
-                    self.continuing.get(self.continuing.len() - 2)
-                {
+                let last_field = if let [.., last_continuing_with_1, _] = &self.continuing[..] {
                     last_continuing_with_1.1.as_ref()
                 } else {
                     // backup field 1 is the starting one
@@ -64,7 +62,7 @@ impl<T> ContinuingFields<T> {
         fields: (T, Option<T>),
     ) -> Result<(), ContinuingSetError> {
         // if index isn't the last index, field 1 being none will return an error
-        if index != self.continuing.len() - 1 && fields.1.is_none() {
+        if Some(index) != self.continuing.len().checked_sub(1) && fields.1.is_none() {
             Err(ContinuingSetError::InvalidSecondFieldOption)
         } else {
             match self.continuing.get_mut(index) {
@@ -138,9 +136,7 @@ impl Colours {
         if let Some(last_continuing) = self.continuing.last() {
             if last_continuing.1.is_none() {
                 // find last field
-                let last_field = if let Some(last_continuing_with_1) =
-                    self.continuing.get(self.continuing.len() - 2)
-                {
+                let last_field = if let [.., last_continuing_with_1, _] = &self.continuing[..] {
                     last_continuing_with_1.1.as_ref()
                 } else {
                     // backup field 1 is the starting one
@@ -150,9 +146,7 @@ impl Colours {
                 self.continuing.last_mut().unwrap().1 = last_field.copied();
             } else if last_continuing.2.is_none() {
                 // find last field
-                let last_field = if let Some(last_continuing_with_2) =
-                    self.continuing.get(self.continuing.len() - 2)
-                {
+                let last_field = if let [.., last_continuing_with_2, _] = &self.continuing[..] {
                     last_continuing_with_2.2.as_ref()
                 } else {
                     // backup field 2 is the starting one
@@ -171,7 +165,7 @@ impl Colours {
         fields: (u8, Option<u8>, Option<u8>),
     ) -> Result<(), ContinuingRGBSetError> {
         // if index isn't the last index, b or g being none will return an error
-        let index_is_last = index == self.continuing.len() - 1;
+        let index_is_last = Some(index) == self.continuing.len().checked_sub(1);
 
         if !index_is_last && fields.1.is_none() {
             Err(ContinuingRGBSetError::InvalidFieldOption(
-- 
2.43.0


From e6abc159e38115f97044aaa9c06b09177abd8592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 15/29] fix: pushing a continuing colour after one without
 green and blue also completes the blue field

---
 src/osu_file/events/storyboard/cmds/types.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/osu_file/events/storyboard/cmds/types.rs b/src/osu_file/events/storyboard/cmds/types.rs
index ed8ad2d..7a9e295 100644
--- a/src/osu_file/events/storyboard/cmds/types.rs
+++ b/src/osu_file/events/storyboard/cmds/types.rs
@@ -144,7 +144,11 @@ impl Colours {
                 };
 
                 self.continuing.last_mut().unwrap().1 = last_field.copied();
-            } else if last_continuing.2.is_none() {
+            }
+        }
+        // green being none means blue is none as well
+        if let Some(last_continuing) = self.continuing.last() {
+            if last_continuing.2.is_none() {
                 // find last field
                 let last_field = if let [.., last_continuing_with_2, _] = &self.continuing[..] {
                     last_continuing_with_2.2.as_ref()
-- 
2.43.0


From 6640d23b87aea19695f9f5f81a737782b547cc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 16/29] fix: line index of errors after indented lines or blank
 lines

---
 src/helper/macros.rs    |  4 ++--
 src/osu_file/mod.rs     | 12 +++++++-----
 src/osu_file/osb/mod.rs |  6 +++---
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/helper/macros.rs b/src/helper/macros.rs
index 5293015..8f9f4dd 100644
--- a/src/helper/macros.rs
+++ b/src/helper/macros.rs
@@ -126,7 +126,7 @@ macro_rules! general_section_inner {
 
                 if !s.trim().is_empty() {
                     // line count from fields
-                    let line_count = { fields.iter().map(|(_, _, _, ws)| ws.lines().count()).sum() };
+                    let line_count = { fields.iter().map(|(_, _, _, ws)| ws.matches('\n').count()).sum() };
 
                     return Err(crate::osu_file::types::Error::new(<$parse_error>::InvalidColonSet, line_count));
                 }
@@ -148,7 +148,7 @@ macro_rules! general_section_inner {
                         _ => return Err(crate::osu_file::types::Error::new(ParseError::InvalidKey, line_count)),
                     }
 
-                    line_count += ws_2.lines().count();
+                    line_count += ws_2.matches('\n').count();
                     parsed_fields.push(name);
                 }
 
diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index 0d1b7f0..4e2f481 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -203,6 +203,8 @@ impl FromStr for OsuFile {
             return Err(ParseError::InvalidFileVersion.into());
         }
 
+        let trailing_ws_lines = trailing_ws.matches('\n').count();
+
         let pre_section_count = s
             .lines()
             .take_while(|s| {
@@ -222,7 +224,7 @@ impl FromStr for OsuFile {
                 continue;
             }
 
-            return Err(Error::new(ParseError::UnexpectedLine, i));
+            return Err(Error::new(ParseError::UnexpectedLine, trailing_ws_lines + i));
         }
 
         let s = s
@@ -246,17 +248,17 @@ impl FromStr for OsuFile {
             mut hitobjects,
         ) = (None, None, None, None, None, None, None, None);
 
-        let mut line_number = trailing_ws.lines().count() + pre_section_count;
+        let mut line_number = trailing_ws_lines + pre_section_count;
 
         for (ws, section_name, ws2, section) in sections {
-            line_number += ws.lines().count();
+            line_number += ws.matches('\n').count();
 
             if section_parsed.contains(&section_name) {
                 return Err(Error::new(ParseError::DuplicateSections, line_number));
             }
 
             let section_name_line = line_number;
-            line_number += ws2.lines().count();
+            line_number += ws2.matches('\n').count();
 
             match section_name {
                 "General" => {
@@ -308,7 +310,7 @@ impl FromStr for OsuFile {
         let section_name_line = unparsed.trim_start();
         if let Some(name) = section_name_line.lines().next() {
             line_number += unparsed[..unparsed.len() - section_name_line.len()]
-                .lines()
+                .matches('\n')
                 .count();
 
             let name = name.trim_end();
diff --git a/src/osu_file/osb/mod.rs b/src/osu_file/osb/mod.rs
index 3792096..cb0c09b 100644
--- a/src/osu_file/osb/mod.rs
+++ b/src/osu_file/osb/mod.rs
@@ -62,14 +62,14 @@ impl VersionedFromStr for Osb {
         let (mut events, mut variables) = (None, None);
 
         for (ws, section_name, ws2, section) in sections {
-            line_number += ws.lines().count();
+            line_number += ws.matches('\n').count();
 
             if section_parsed.contains(&section_name) {
                 return Err(Error::new(ParseError::DuplicateSections, line_number));
             }
 
             let section_name_line = line_number;
-            line_number += ws2.lines().count();
+            line_number += ws2.matches('\n').count();
 
             match section_name {
                 "Variables" => {
@@ -109,7 +109,7 @@ impl VersionedFromStr for Osb {
         let section_name_line = unparsed.trim_start();
         if let Some(name) = section_name_line.lines().next() {
             line_number += unparsed[..unparsed.len() - section_name_line.len()]
-                .lines()
+                .matches('\n')
                 .count();
 
             let name = name.trim_end();
-- 
2.43.0


From 249a962d7b175667f12f6a1ab4913b864209fb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 17/29] fix: line index of file version errors after blank
 lines

---
 src/osu_file/mod.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index 4e2f481..ae13379 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -174,6 +174,7 @@ impl FromStr for OsuFile {
         );
         let version_number = map_res(take_till(|c| c == '\r' || c == '\n'), |s: &str| s.parse());
 
+        let input = s;
         let (s, (trailing_ws, version)) = match tuple((
             multispace0,
             preceded(version_text, version_number),
@@ -183,28 +184,35 @@ impl FromStr for OsuFile {
             Err(err) => {
                 // wrong line?
                 let err = if let nom::Err::Error(err) = err {
+                    let line_index = input[..input.len() - err.input.len()].matches('\n').count();
+
                     // can find out error by checking the error type
-                    match err.code {
+                    let err = match err.code {
                         nom::error::ErrorKind::Tag => ParseError::FileVersionDefinedWrong,
                         nom::error::ErrorKind::MapRes => ParseError::InvalidFileVersion,
                         _ => {
                             unreachable!("Not possible to have the error kind {:#?}", err.code)
                         }
-                    }
+                    };
+
+                    Error::new(err, line_index)
                 } else {
                     unreachable!("Not possible to reach when the errors are already handled, error type is {:#?}", err)
                 };
 
-                return Err(err.into());
+                return Err(err);
             }
         };
 
+        let trailing_ws_lines = trailing_ws.matches('\n').count();
+
         if !(MIN_VERSION..=LATEST_VERSION).contains(&version) {
-            return Err(ParseError::InvalidFileVersion.into());
+            return Err(Error::new(
+                ParseError::InvalidFileVersion,
+                trailing_ws_lines,
+            ));
         }
 
-        let trailing_ws_lines = trailing_ws.matches('\n').count();
-
         let pre_section_count = s
             .lines()
             .take_while(|s| {
-- 
2.43.0


From 287115bf5675e551ddeb525e3f9bdb13b189ff2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 18/29] fix: write the volume of version 4 timing points that
 have one

---
 src/osu_file/timingpoints/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index 54c9394..d39ba9f 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -263,6 +263,7 @@ impl TimingPoint {
 }
 
 const OLD_VERSION_TIME_OFFSET: rust_decimal::Decimal = dec!(24);
+const VOLUME_FALLBACK: Integer = 100;
 
 impl VersionedFromStr for TimingPoint {
     type Err = ParseTimingPointError;
@@ -271,7 +272,8 @@ impl VersionedFromStr for TimingPoint {
         let meter_fallback = 4;
         let sample_set_fallback = SampleSet::Normal;
         let sample_index_fallback = <SampleIndex as VersionedFrom<u32>>::from(1, version).unwrap();
-        let volume_fallback = <Volume as VersionedFrom<Integer>>::from(100, version).unwrap();
+        let volume_fallback =
+            <Volume as VersionedFrom<Integer>>::from(VOLUME_FALLBACK, version).unwrap();
 
         // for now we limit some fields for certain versions since we aren't sure if they are optional or not
         // could change in the future to be more flexible
@@ -464,6 +466,10 @@ impl VersionedToString for TimingPoint {
             fields.push(self.sample_set.to_string(version).unwrap());
             fields.push(self.sample_index.to_string(version).unwrap());
         }
+        // version 4 only has the volume sometimes
+        if version == 4 && self.volume.volume() != VOLUME_FALLBACK {
+            fields.push(self.volume.to_string(version).unwrap());
+        }
         if version > 4 {
             fields.push(self.volume.to_string(version).unwrap());
             match self.uninherited {
-- 
2.43.0


From 435b238bdea03b904984b9a143ac13b069e654e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 19/29] fix: timing points with only one of uninherited and
 effects were written as an unparsable line

---
 src/osu_file/timingpoints/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index d39ba9f..1450e3c 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -476,12 +476,18 @@ impl VersionedToString for TimingPoint {
                 Some(value) => fields.push((value as u8).to_string()),
                 None => {
                     if self.effects.is_some() {
-                        fields.push(String::new())
+                        fields.push((self.uninherited() as u8).to_string())
                     }
                 }
             }
-            if let Some(value) = self.effects {
-                fields.push(value.to_string(version).unwrap())
+            match self.effects {
+                Some(value) => fields.push(value.to_string(version).unwrap()),
+                None => {
+                    // the effects are only optional with the uninherited field up to version 5
+                    if version > 5 && self.uninherited.is_some() {
+                        fields.push(Effects::new(false, false).to_string(version).unwrap())
+                    }
+                }
             }
         }
 
-- 
2.43.0


From a126d57579b6587110bc0b4609b776a02e35049a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 20/29] fix: comparing osu file strings ignored whitespace
 inside of values

---
 src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6ed5bf4..b1b502e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -94,16 +94,18 @@ pub fn osu_str_trimmer(s: &str) -> String {
                 let line = line
                     .chars()
                     .filter(|c| {
-                        if !header && !value && *c == ':' {
+                        if header && *c == ':' {
                             header = false;
                             value = true;
                             return true;
                         }
 
-                        if header && c.is_whitespace() {
+                        if (header || value) && c.is_whitespace() {
                             return false;
                         }
 
+                        value = false;
+
                         true
                     })
                     .collect::<String>();
-- 
2.43.0


From ce2e0a0b3e1d74a2d9c8958b901be1f9602d9a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 21/29] fix: only write a variable in a storyboard command
 where it is parsed back to the same command

---
 src/osu_file/events/storyboard/cmds/mod.rs | 25 ++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/events/storyboard/cmds/mod.rs b/src/osu_file/events/storyboard/cmds/mod.rs
index d360c6d..72d67d2 100644
--- a/src/osu_file/events/storyboard/cmds/mod.rs
+++ b/src/osu_file/events/storyboard/cmds/mod.rs
@@ -63,6 +63,21 @@ where
     }
 }
 
+/// Replaces the variables in the fields of a command the way parsing the command does.
+fn expand_variables(fields: &str, variables: &[Variable]) -> String {
+    let mut expanded = fields.to_owned();
+
+    for variable in variables {
+        let variable_full = format!("${}", variable.name);
+
+        if fields.contains(&variable_full) {
+            expanded = expanded.replace(&variable_full, &variable.value);
+        }
+    }
+
+    expanded
+}
+
 impl VersionedToString for Command {
     fn to_string(&self, version: Version) -> Option<String> {
         self.to_string_variables(version, &[])
@@ -74,11 +89,17 @@ impl Command {
         let end_time_to_string =
             |end_time: &Option<i32>| end_time.map_or("".to_string(), |t| t.to_string());
         let variable_replace = |header, cmd: String| {
+            let original = cmd.clone();
             let mut cmd = cmd;
 
             for variable in variables {
-                if cmd.contains(&variable.value) {
-                    cmd = cmd.replace(&variable.value, &format!("${}", variable.name));
+                if !variable.value.is_empty() && cmd.contains(&variable.value) {
+                    let replaced = cmd.replace(&variable.value, &format!("${}", variable.name));
+
+                    // the command has to be the same when it's parsed with the variables
+                    if expand_variables(&replaced, variables) == original {
+                        cmd = replaced;
+                    }
                 }
             }
 
-- 
2.43.0


From 93f8786311496a7181e3644b3f1b9bf3cec30191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 22/29] fix: pushing a command with no indentation panicked
 instead of being an error

---
 src/osu_file/events/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index 81cb969..c65bafc 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -444,7 +444,9 @@ fn commands_to_string_variables(
 
 pub trait EventWithCommands {
     fn try_push_cmd(&mut self, cmd: Command, indentation: usize) -> Result<(), CommandPushError> {
-        if indentation == 1 {
+        if indentation == 0 {
+            Err(CommandPushError::InvalidIndentation(1, indentation))
+        } else if indentation == 1 {
             // first match no loop required
             self.commands_mut().push(cmd);
             Ok(())
-- 
2.43.0


From cc47fcec74ac14f8f3a9a66de5d9d6dd404a7467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:09 +0000
Subject: [PATCH 23/29] fix: BPM of timing points without the uninherited field

They count as uninherited, but had no BPM.
---
 src/osu_file/timingpoints/mod.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index 1450e3c..4fed84f 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -154,20 +154,15 @@ impl TimingPoint {
     /// Calculates BPM using the `beatLength` field when unherited.
     /// - Returns `None` if the timing point is inherited, `beat_length` isn't a valid decimal, or the BPM isn't a representable number.
     pub fn calc_bpm(&self) -> Option<rust_decimal::Decimal> {
-        match self.uninherited {
-            Some(uninherited) => {
-                if uninherited {
-                    match self.beat_length.get() {
-                        Either::Left(value) => rust_decimal::Decimal::ONE
-                            .checked_div(*value)?
-                            .checked_mul(dec!(60000)),
-                        Either::Right(_) => None,
-                    }
-                } else {
-                    None
-                }
-            }
-            None => None,
+        if !self.uninherited() {
+            return None;
+        }
+
+        match self.beat_length.get() {
+            Either::Left(value) => rust_decimal::Decimal::ONE
+                .checked_div(*value)?
+                .checked_mul(dec!(60000)),
+            Either::Right(_) => None,
         }
     }
     /// Calculates the slider velocity multiplier when the timing point is inherited.
-- 
2.43.0


From bb22117de50a8acf1910c1dbd7e150f6620fb18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:32 +0000
Subject: [PATCH 24/29] fix: leave the quotes around an animation's path out of
 its frame file names

---
 src/osu_file/events/storyboard/sprites.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/osu_file/events/storyboard/sprites.rs b/src/osu_file/events/storyboard/sprites.rs
index 4a2282c..058d502 100644
--- a/src/osu_file/events/storyboard/sprites.rs
+++ b/src/osu_file/events/storyboard/sprites.rs
@@ -245,7 +245,13 @@ impl Animation {
     pub fn frame_file_names(&self) -> Vec<PathBuf> {
         let mut file_names = Vec::with_capacity(self.frame_count as usize);
 
-        let filepath = self.filepath.get();
+        // a parsed path keeps the quotes around it
+        let filepath = self.filepath.get().to_string_lossy();
+        let filepath = filepath
+            .strip_prefix('"')
+            .and_then(|path| path.strip_suffix('"'))
+            .unwrap_or(&filepath);
+        let filepath = Path::new(filepath);
         let mut file_name = match filepath.file_name() {
             Some(file_name) => file_name.to_string_lossy().to_string(),
             None => String::new(),
-- 
2.43.0


From 6c47743fa836da43aabf365f619462d6504d52a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:27 +0000
Subject: [PATCH 25/29] fix: writing an old sprite, animation or sample on its
 own left out its commands

---
 src/osu_file/events/normal_event/mod.rs | 52 ++++++++++++-------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/osu_file/events/normal_event/mod.rs b/src/osu_file/events/normal_event/mod.rs
index 5957950..04bfc35 100644
--- a/src/osu_file/events/normal_event/mod.rs
+++ b/src/osu_file/events/normal_event/mod.rs
@@ -414,13 +414,7 @@ impl VersionedFromStr for SpriteLegacy {
 
 impl VersionedToString for SpriteLegacy {
     fn to_string(&self, version: Version) -> Option<String> {
-        Some(format!(
-            "{SPRITE_LEGACY_HEADER},{},{},{}{}",
-            self.layer.to_string(version).unwrap(),
-            self.origin.to_string(version).unwrap(),
-            self.file_name.to_string(version).unwrap(),
-            position_str(&self.position),
-        ))
+        self.to_string_variables(version, &[])
     }
 }
 
@@ -434,7 +428,13 @@ impl EventWithCommands for SpriteLegacy {
     }
 
     fn to_string_cmd(&self, version: Version) -> Option<String> {
-        self.to_string(version)
+        Some(format!(
+            "{SPRITE_LEGACY_HEADER},{},{},{}{}",
+            self.layer.to_string(version).unwrap(),
+            self.origin.to_string(version).unwrap(),
+            self.file_name.to_string(version).unwrap(),
+            position_str(&self.position),
+        ))
     }
 }
 
@@ -496,13 +496,7 @@ impl VersionedFromStr for AnimationLegacy {
 
 impl VersionedToString for AnimationLegacy {
     fn to_string(&self, version: Version) -> Option<String> {
-        Some(format!(
-            "{ANIMATION_LEGACY_HEADER},{},{},{}{}",
-            self.layer.to_string(version).unwrap(),
-            self.origin.to_string(version).unwrap(),
-            self.file_name.to_string(version).unwrap(),
-            position_str(&self.position),
-        ))
+        self.to_string_variables(version, &[])
     }
 }
 
@@ -514,7 +508,13 @@ impl EventWithCommands for AnimationLegacy {
         &mut self.commands
     }
     fn to_string_cmd(&self, version: Version) -> Option<String> {
-        self.to_string(version)
+        Some(format!(
+            "{ANIMATION_LEGACY_HEADER},{},{},{}{}",
+            self.layer.to_string(version).unwrap(),
+            self.origin.to_string(version).unwrap(),
+            self.file_name.to_string(version).unwrap(),
+            position_str(&self.position),
+        ))
     }
 }
 
@@ -582,15 +582,7 @@ impl VersionedFromStr for SampleLegacy {
 
 impl VersionedToString for SampleLegacy {
     fn to_string(&self, version: Version) -> Option<String> {
-        Some(format!(
-            "{SAMPLE_LEGACY_HEADER},{},{},{}{}",
-            self.time,
-            self.layer.to_string(version).unwrap(),
-            self.file_name.to_string(version).unwrap(),
-            self.volume
-                .map(|v| format!(",{}", v.to_string(version).unwrap()))
-                .unwrap_or_default(),
-        ))
+        self.to_string_variables(version, &[])
     }
 }
 
@@ -604,6 +596,14 @@ impl EventWithCommands for SampleLegacy {
     }
 
     fn to_string_cmd(&self, version: Version) -> Option<String> {
-        self.to_string(version)
+        Some(format!(
+            "{SAMPLE_LEGACY_HEADER},{},{},{}{}",
+            self.time,
+            self.layer.to_string(version).unwrap(),
+            self.file_name.to_string(version).unwrap(),
+            self.volume
+                .map(|v| format!(",{}", v.to_string(version).unwrap()))
+                .unwrap_or_default(),
+        ))
     }
 }
-- 
2.43.0


From 642ed04643568f3da1403493bbb791af23270e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:18 +0000
Subject: [PATCH 26/29] fix: name the second item in the error of a colon set
 whose second item is invalid

---
 src/osu_file/hitobjects/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/hitobjects/types.rs b/src/osu_file/hitobjects/types.rs
index 182004d..0d71d3b 100644
--- a/src/osu_file/hitobjects/types.rs
+++ b/src/osu_file/hitobjects/types.rs
@@ -81,7 +81,7 @@ impl VersionedFromStr for EdgeSet {
                 context(ParseColonSetError::MissingSeparator.into(), tag(":")),
             ),
             context(
-                ParseColonSetError::InvalidFirstItem.into(),
+                ParseColonSetError::InvalidSecondItem.into(),
                 consume_rest_versioned_type(version),
             ),
         ))(s)?;
@@ -120,7 +120,7 @@ impl VersionedFromStr for CurvePoint {
                 context(ParseColonSetError::MissingSeparator.into(), tag(":")),
             ),
             context(
-                ParseColonSetError::InvalidFirstItem.into(),
+                ParseColonSetError::InvalidSecondItem.into(),
                 consume_rest_type(),
             ),
         ))(s)?;
-- 
2.43.0


From c343c7b095d6de9932f4203fab7dacfb53208d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:55 +0000
Subject: [PATCH 27/29] fix: a variable used in a command's fields was also
 replaced in its type

---
 src/osu_file/events/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index c65bafc..05bb139 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -130,9 +130,9 @@ impl Events {
             // its a storyboard command
             if indent > 0 {
                 let cmd_parse = || {
-                    let line_without_header = match line.find(',') {
-                        Some(i) => &line[i + 1..],
-                        None => line,
+                    let (header, line_without_header) = match line.find(',') {
+                        Some(i) => line.split_at(i + 1),
+                        None => ("", line),
                     };
 
                     let mut line_with_variable: Option<String> = None;
@@ -144,13 +144,18 @@ impl Events {
                                 Some(line_with_variable) => {
                                     line_with_variable.replace(&variable_full, &variable.value)
                                 }
-                                None => line.replace(&variable_full, &variable.value),
+                                None => {
+                                    line_without_header.replace(&variable_full, &variable.value)
+                                }
                             };
 
                             line_with_variable = Some(new_line);
                         }
                     }
 
+                    let line_with_variable =
+                        line_with_variable.map(|line| format!("{header}{line}"));
+
                     match line_with_variable {
                         Some(line_with_variable) => Error::new_from_result_into(
                             Command::from_str(&line_with_variable, version),
-- 
2.43.0


From 3eaa6cc9b2ed859f4aebd472885d1b454be4aaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:52 +0000
Subject: [PATCH 28/29] fix: trimming an osu file string kept whitespace before
 a byte order mark

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b1b502e..b200f1b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -55,7 +55,7 @@ pub fn osu_str_trimmer(s: &str) -> String {
         };
 
     for line in s.lines() {
-        let line = line.trim().replace('\u{feff}', "");
+        let line = line.replace('\u{feff}', "").trim().to_string();
 
         if line.is_empty() {
             continue;
-- 
2.43.0


From e0f8d2705e430a04af51d6b1094786f1f66093f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:49 +0000
Subject: [PATCH 29/29] fix: refused indentation named one that isn't possible
 as expected

---
 src/osu_file/events/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index 05bb139..75e8de0 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -475,14 +475,14 @@ pub trait EventWithCommands {
                             Some(sub_cmd) => sub_cmd,
                             None => {
                                 return Err(CommandPushError::InvalidIndentation(
-                                    i - 1,
+                                    i + 1,
                                     indentation,
                                 ))
                             }
                         }
                     }
                 } else {
-                    return Err(CommandPushError::InvalidIndentation(1, indentation));
+                    return Err(CommandPushError::InvalidIndentation(i, indentation));
                 };
             }
 
-- 
2.43.0

