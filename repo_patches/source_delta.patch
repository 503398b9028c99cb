From 9405031acb2491663189429a3e4e94210bb2bced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:16 +0000
Subject: [PATCH 01/22] fix: return InvalidCountryCode instead of panicking
 when the database lacks the hinted region

---
 src/parser/helper.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index fb6dc53..40b2353 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -191,7 +191,9 @@ pub fn country_code<'a>(
 
         country::Source::Default => {
             if let Some(country) = country {
-                let meta = database.by_id(country.as_ref()).unwrap();
+                let Some(meta) = database.by_id(country.as_ref()) else {
+                    return Err(error::Parse::InvalidCountryCode);
+                };
                 let code = meta.country_code.to_string();
 
                 if number.national.starts_with(&code)
-- 
2.43.0


From 7a8e061415d9e4afab23538ecd99c2897e92ad19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:16 +0000
Subject: [PATCH 02/22] fix: do not panic on region ids that are not country
 ids when attributing a number

---
 src/validator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/validator.rs b/src/validator.rs
index fb6ba37..4ca52f2 100644
--- a/src/validator.rs
+++ b/src/validator.rs
@@ -165,11 +165,11 @@ pub fn source_for(
         if let Some(pattern) = meta.leading_digits.as_ref() {
             if let Some(index) = pattern.find(national) {
                 if index.start() == 0 {
-                    return Some(Left(region.parse().unwrap()));
+                    return region.parse().ok().map(Left);
                 }
             }
         } else if number_type(meta, national) != Type::Unknown {
-            return Some(Left(region.parse().unwrap()));
+            return region.parse().ok().map(Left);
         }
     }
 
-- 
2.43.0


From 0cb739060419f45197beff4cf3085d94c74ba184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:16 +0000
Subject: [PATCH 03/22] fix: report a descriptor without nationalNumberPattern
 as MissingValue instead of panicking

---
 src/metadata/database.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/metadata/database.rs b/src/metadata/database.rs
index a15e852..409d426 100644
--- a/src/metadata/database.rs
+++ b/src/metadata/database.rs
@@ -68,9 +68,6 @@ impl Database {
 
         let descriptor =
             |desc: loader::Descriptor| -> Result<super::Descriptor, error::LoadMetadata> {
-                desc.national_number.as_ref().unwrap();
-                desc.national_number.as_ref().unwrap();
-
                 Ok(super::Descriptor {
                     national_number: desc
                         .national_number
-- 
2.43.0


From d22d5e1c55d75c6869002cea2973e4035f3934e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:16 +0000
Subject: [PATCH 04/22] fix: keep leading zeros when looking up metadata and
 type of a number

---
 src/phone_number.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/phone_number.rs b/src/phone_number.rs
index 36a7e69..1c20e8c 100644
--- a/src/phone_number.rs
+++ b/src/phone_number.rs
@@ -206,11 +206,7 @@ impl PhoneNumber {
     /// Get the metadata that applies to this phone number from the given
     /// database.
     pub fn metadata<'a>(&self, database: &'a Database) -> Option<&'a Metadata> {
-        match validator::source_for(
-            database,
-            self.code.value(),
-            &self.national.value().to_string(),
-        )? {
+        match validator::source_for(database, self.code.value(), &self.national.to_string())? {
             Left(region) => database.by_id(region.as_ref()),
             Right(code) => database.by_code(&code).and_then(|m| m.into_iter().next()),
         }
@@ -234,7 +230,7 @@ impl PhoneNumber {
     /// Determine the [`Type`] of the phone number with the given `Database`.
     pub fn number_type_with(&self, database: &Database) -> Type {
         match self.metadata(database) {
-            Some(metadata) => validator::number_type(metadata, &self.national.value().to_string()),
+            Some(metadata) => validator::number_type(metadata, &self.national.to_string()),
             None => Type::Unknown,
         }
     }
-- 
2.43.0


From 953404151fd0712db0b8595b91630c58b408bbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:16 +0000
Subject: [PATCH 05/22] fix: do not strip the national prefix twice

---
 src/parser/mod.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 1db0b32..c5c0901 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -84,14 +84,7 @@ pub fn parse_with<S: AsRef<str>>(
 
     // Extract carrier and strip national prefix if present.
     if let Some(meta) = meta {
-        let mut potential = helper::national_number(meta, number.clone());
-
-        // Strip national prefix if present.
-        if let Some(prefix) = meta.national_prefix.as_ref() {
-            if potential.national.starts_with(prefix) {
-                potential.national = helper::trim(potential.national, prefix.len());
-            }
-        }
+        let potential = helper::national_number(meta, number.clone());
 
         if validator::length(meta, &potential, Type::Unknown) != Validation::TooShort {
             number = potential;
-- 
2.43.0


From 04e795657a7f8fd0be514f929135c3c5445126e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:16 +0000
Subject: [PATCH 06/22] fix: check the number without its national prefix for
 viability, not the number itself

---
 src/parser/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index 40b2353..4f4885f 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -320,7 +320,7 @@ pub fn national_number<'a>(meta: &Metadata, mut number: Number<'a>) -> Number<'a
         .unwrap();
 
     if transform.is_none() || last.is_none() {
-        if viable && !meta.descriptors.general.is_match(&number.national[start..]) {
+        if viable && !meta.descriptors.general.is_match(&number.national[end..]) {
             return number;
         }
 
-- 
2.43.0


From 7fe550216736ed14e676ec11eb38b8a142323d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:11 +0000
Subject: [PATCH 07/22] fix: only report a carrier that was captured by the
 national prefix pattern

---
 src/parser/helper.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index 4f4885f..78b310d 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -324,7 +324,7 @@ pub fn national_number<'a>(meta: &Metadata, mut number: Number<'a>) -> Number<'a
             return number;
         }
 
-        number.carrier = last.filter(|_| groups > 0).map(Into::into);
+        number.carrier = last.filter(|_| groups > 1).map(Into::into);
 
         number.national = trim(number.national, end);
     } else if let Some(transform) = transform {
@@ -334,7 +334,7 @@ pub fn national_number<'a>(meta: &Metadata, mut number: Number<'a>) -> Number<'a
             return number;
         }
 
-        number.carrier = Some(first.unwrap().into());
+        number.carrier = first.filter(|_| groups > 2).map(Into::into);
         number.national = transformed.into();
     }
 
-- 
2.43.0


From 4142f2b7378504ae54e0e9fa6e8cc70307e8d797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:11 +0000
Subject: [PATCH 08/22] fix: accept every extension notation of the extension
 pattern

---
 src/parser/natural.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/natural.rs b/src/parser/natural.rs
index 6428f5c..a5c3f7c 100644
--- a/src/parser/natural.rs
+++ b/src/parser/natural.rs
@@ -22,7 +22,7 @@ pub fn phone_number(i: &str) -> IResult<&str, Number<'_>> {
     let extension = consts::EXTN_PATTERN.captures(i);
 
     if let Some(c) = extension.as_ref() {
-        if c.get(0).is_none() || c.get(2).is_none() {
+        if c.iter().skip(1).flatten().next().is_none() {
             return Err(nom::Err::Failure(nom::error::Error::new(i, ErrorKind::Eof)));
         }
     }
@@ -38,7 +38,8 @@ pub fn phone_number(i: &str) -> IResult<&str, Number<'_>> {
 
             extension: extension
                 .as_ref()
-                .map(|c| c.get(2).unwrap().as_str())
+                .and_then(|c| c.iter().skip(1).flatten().next())
+                .map(|m| m.as_str())
                 .map(Into::into),
 
             ..Default::default()
-- 
2.43.0


From ff8f8a7c646e92863c1f45deaebc2b98f4874cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:11 +0000
Subject: [PATCH 09/22] fix: require the whole number to match a format without
 leading digits too

---
 src/formatter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 288783b..ce06ae4 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -209,18 +209,18 @@ fn formatter<'a>(number: &str, formats: &'a [Format]) -> Option<&'a Format> {
     for format in formats {
         let leading = format.leading_digits();
 
-        if leading.is_empty()
+        if (leading.is_empty()
             || leading
                 .last()
                 .unwrap()
                 .find(number)
                 .map(|m| m.start() == 0)
+                .unwrap_or(false))
+            && format
+                .pattern()
+                .find(number)
+                .map(|m| m.start() == 0 && m.end() == number.len())
                 .unwrap_or(false)
-                && format
-                    .pattern()
-                    .find(number)
-                    .map(|m| m.start() == 0 && m.end() == number.len())
-                    .unwrap_or(false)
         {
             return Some(format);
         }
-- 
2.43.0


From 7b7a830ae83e602cb51c9a323b9ef20a0ae61822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:11 +0000
Subject: [PATCH 10/22] fix: do not panic on a format without a group reference
 when a prefix rule applies

---
 src/formatter.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index ce06ae4..f1f6d96 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -240,13 +240,10 @@ fn replace(
         .pattern()
         .replace(
             national,
-            &*if let Some(transform) = transform {
-                let first = consts::FIRST_GROUP
-                    .captures(formatter.format())
-                    .unwrap()
-                    .get(1)
-                    .unwrap()
-                    .as_str();
+            &*if let Some((transform, first)) =
+                transform.zip(consts::FIRST_GROUP.find(formatter.format()))
+            {
+                let first = first.as_str();
                 let format = transform.replace(consts::NP, meta.national_prefix().unwrap_or(""));
                 let format = format.replace(consts::FG, &format!("${}", first));
                 let format = format.replace(consts::CC, carrier.unwrap_or(""));
-- 
2.43.0


From ee4de62eb0ea66d3b517e08d748f445cd2b29246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:11 +0000
Subject: [PATCH 11/22] fix: iterate over every metadata entry, including the
 non-geographical ones

---
 src/metadata/database.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metadata/database.rs b/src/metadata/database.rs
index 409d426..768ec46 100644
--- a/src/metadata/database.rs
+++ b/src/metadata/database.rs
@@ -244,6 +244,6 @@ impl Database {
 
     /// Iterator over all `Metadata` entries in this database.
     pub fn iter(&self) -> impl Iterator<Item = &Metadata> {
-        self.by_id.values().map(AsRef::as_ref)
+        self.by_code.values().flatten().map(AsRef::as_ref)
     }
 }
-- 
2.43.0


From 91314de31a477d28b5446acf586204440dc42631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:11 +0000
Subject: [PATCH 12/22] fix: reject national numbers whose leading zeros do not
 fit instead of wrapping

---
 src/national_number.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/national_number.rs b/src/national_number.rs
index d061926..0604a78 100644
--- a/src/national_number.rs
+++ b/src/national_number.rs
@@ -28,7 +28,9 @@ impl FromStr for NationalNumber {
         let zeros = s.chars().take_while(|&c| c == '0').count();
         let value = s[zeros..].parse::<u64>()?;
 
-        NationalNumber::new(value, zeros as u8)
+        let zeros = u8::try_from(zeros).map_err(|_| crate::error::Parse::TooLong)?;
+
+        NationalNumber::new(value, zeros)
     }
 }
 
-- 
2.43.0


From 61f84c77dd57bdb8bc43c4fa0041cbb336c43a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:11 +0000
Subject: [PATCH 13/22] fix: compare number lengths without truncating them to
 16 bits

---
 src/metadata/descriptor.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/metadata/descriptor.rs b/src/metadata/descriptor.rs
index ce6b7d7..a56e266 100644
--- a/src/metadata/descriptor.rs
+++ b/src/metadata/descriptor.rs
@@ -72,7 +72,11 @@ impl Descriptor {
 
     /// Check if the descriptor matches the given national number.
     pub fn is_match(&self, value: &str) -> bool {
-        if !self.possible_length.is_empty() && !self.possible_length.contains(&(value.len() as u16))
+        if !self.possible_length.is_empty()
+            && !self
+                .possible_length
+                .iter()
+                .any(|&length| usize::from(length) == value.len())
         {
             return false;
         }
-- 
2.43.0


From 9e30dd2f0df1a7f3065a8d824904762c32fad7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:11 +0000
Subject: [PATCH 14/22] fix: reject malformed possible lengths instead of
 panicking

---
 src/metadata/loader.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/metadata/loader.rs b/src/metadata/loader.rs
index 769357c..bf32211 100644
--- a/src/metadata/loader.rs
+++ b/src/metadata/loader.rs
@@ -318,17 +318,17 @@ fn descriptor<R: BufRead>(
         let mut result = Vec::new();
 
         for part in value.split(',').map(str::trim) {
-            if part.as_bytes()[0] == b'[' {
-                let mut parts = part.split('-');
-
-                if let (Some(start), Some(end)) = (parts.next(), parts.next()) {
-                    let start = start[1..].parse::<u16>()?;
-                    let end = end[..end.len() - 1].parse::<u16>()?;
+            if let Some(range) = part.strip_prefix('[') {
+                let (start, end) = range
+                    .strip_suffix(']')
+                    .and_then(|range| range.split_once('-'))
+                    .ok_or_else(|| error::Metadata::UnhandledAttribute {
+                        phase: "descriptor".into(),
+                        name: "possibleLengths".into(),
+                        value: value.into(),
+                    })?;
 
-                    for i in start..end + 1 {
-                        result.push(i);
-                    }
-                }
+                result.extend(start.parse::<u16>()?..=end.parse::<u16>()?);
             } else {
                 result.push(part.parse()?);
             }
-- 
2.43.0


From 23c320dc525bfe8df67124bd33ca41bfbf82c3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:54 +0000
Subject: [PATCH 15/22] fix: skip unknown elements without recursing on their
 nesting depth

---
 src/metadata/loader.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/metadata/loader.rs b/src/metadata/loader.rs
index bf32211..d5d21e0 100644
--- a/src/metadata/loader.rs
+++ b/src/metadata/loader.rs
@@ -573,17 +573,21 @@ fn format<R: BufRead>(
 
 fn ignore<R: BufRead>(reader: &mut Reader<R>, name: &[u8]) -> Result<(), error::LoadMetadata> {
     let mut buffer = Vec::new();
+    let mut open = vec![name.to_vec()];
 
     loop {
         match reader.read_event_into(&mut buffer)? {
             Event::Text(_) | Event::Comment(_) | Event::Empty(_) => (),
 
-            Event::Start(ref e) => {
-                let name = e.name().into_inner();
-                ignore(reader, name)?
-            }
+            Event::Start(ref e) => open.push(e.name().into_inner().to_vec()),
+
+            Event::End(ref e) if open.last().is_some_and(|n| n == e.name().into_inner()) => {
+                open.pop();
 
-            Event::End(ref e) if e.name().into_inner() == name => return Ok(()),
+                if open.is_empty() {
+                    return Ok(());
+                }
+            }
 
             Event::End(ref e) => {
                 return Err(error::Metadata::MismatchedTag(
-- 
2.43.0


From 7cc8b16de0de348a97593a57a29fe182e1ca580f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:54 +0000
Subject: [PATCH 16/22] fix: require descriptor patterns to match the whole
 national number

---
 src/metadata/database.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metadata/database.rs b/src/metadata/database.rs
index 768ec46..4f3a66f 100644
--- a/src/metadata/database.rs
+++ b/src/metadata/database.rs
@@ -77,7 +77,7 @@ impl Database {
                                 name: "national_number".into(),
                             })
                         })
-                        .and_then(regex)?,
+                        .and_then(|pattern| regex(format!("^(?:{pattern}\n)$")))?,
 
                     possible_length: desc.possible_length,
                     possible_local_length: desc.possible_local_length,
-- 
2.43.0


From 483ed7afab74edcb89b503111f93c7d374b63cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:21 +0000
Subject: [PATCH 17/22] fix: reject a sign inside a national number

---
 src/national_number.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/national_number.rs b/src/national_number.rs
index 0604a78..9008ca1 100644
--- a/src/national_number.rs
+++ b/src/national_number.rs
@@ -26,6 +26,12 @@ impl FromStr for NationalNumber {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let zeros = s.chars().take_while(|&c| c == '0').count();
+
+        // The integer parser accepts a leading sign, a national number does not.
+        if s[zeros..].starts_with('+') {
+            return Err(crate::error::Parse::NoNumber);
+        }
+
         let value = s[zeros..].parse::<u64>()?;
 
         let zeros = u8::try_from(zeros).map_err(|_| crate::error::Parse::TooLong)?;
-- 
2.43.0


From 77d66efe8314bacadc0797aa416618ee3efe7fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:22 +0000
Subject: [PATCH 18/22] fix: converting a national number to u64 gives its
 value without the packed zero count

---
 src/national_number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/national_number.rs b/src/national_number.rs
index 9008ca1..685e213 100644
--- a/src/national_number.rs
+++ b/src/national_number.rs
@@ -84,7 +84,7 @@ impl NationalNumber {
 
 impl From<NationalNumber> for u64 {
     fn from(n: NationalNumber) -> u64 {
-        n.value
+        n.value()
     }
 }
 
-- 
2.43.0


From 691409782104f8658bb2486fe5a360476973e3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:52 +0000
Subject: [PATCH 19/22] fix: decode entity references in attribute values of
 the metadata document

---
 src/metadata/loader.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/metadata/loader.rs b/src/metadata/loader.rs
index d5d21e0..4b48367 100644
--- a/src/metadata/loader.rs
+++ b/src/metadata/loader.rs
@@ -14,6 +14,7 @@
 
 use crate::error;
 use quick_xml::Reader;
+use quick_xml::escape::unescape;
 use quick_xml::events::attributes::Attribute;
 use quick_xml::events::{self, Event};
 use serde_derive::{Deserialize, Serialize};
@@ -176,8 +177,9 @@ fn territory<R: BufRead>(
 
     for attr in e.attributes() {
         let Attribute { key, value } = attr.map_err(quick_xml::Error::InvalidAttr)?;
+        let value = unescape(str::from_utf8(&value)?).map_err(quick_xml::Error::from)?;
 
-        match (str::from_utf8(key.into_inner())?, str::from_utf8(&value)?) {
+        match (str::from_utf8(key.into_inner())?, &*value) {
             ("id", value) => meta.id = Some(value.into()),
 
             ("countryCode", value) => meta.country_code = Some(value.parse()?),
@@ -362,8 +364,10 @@ fn descriptor<R: BufRead>(
                     for attr in e.attributes() {
                         let Attribute { key, value } =
                             attr.map_err(quick_xml::Error::InvalidAttr)?;
+                        let value =
+                            unescape(str::from_utf8(&value)?).map_err(quick_xml::Error::from)?;
 
-                        match (str::from_utf8(key.into_inner())?, str::from_utf8(&value)?) {
+                        match (str::from_utf8(key.into_inner())?, &*value) {
                             ("national", value) => descriptor.possible_length = lengths(value)?,
 
                             ("localOnly", value) => {
@@ -483,8 +487,9 @@ fn format<R: BufRead>(
 
     for attr in e.attributes() {
         let Attribute { key, value } = attr.map_err(quick_xml::Error::InvalidAttr)?;
+        let value = unescape(str::from_utf8(&value)?).map_err(quick_xml::Error::from)?;
 
-        match (str::from_utf8(key.into_inner())?, str::from_utf8(&value)?) {
+        match (str::from_utf8(key.into_inner())?, &*value) {
             ("pattern", value) => format.pattern = Some(value.into()),
 
             ("nationalPrefixFormattingRule", value) => {
-- 
2.43.0


From 8e82bea10437f7497f9d5b28f3e8d80403df03e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:55 +0000
Subject: [PATCH 20/22] fix: do not strip the national prefix off a number that
 is only viable with it

---
 src/parser/helper.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index 78b310d..0b7df23 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -286,8 +286,15 @@ pub fn national_number<'a>(meta: &Metadata, mut number: Number<'a>) -> Number<'a
     let parsing = if let Some(re) = meta.national_prefix_for_parsing.as_ref() {
         re
     } else {
-        if let Some(prefix) = meta.national_prefix.as_ref() {
-            if number.national.starts_with(prefix) {
+        if let Some(prefix) = meta.national_prefix.as_ref()
+            && number.national.starts_with(prefix)
+        {
+            let general = meta.descriptors().general();
+
+            // Do not strip the prefix off a number that is only viable with it.
+            if !general.is_match(&number.national)
+                || general.is_match(&number.national[prefix.len()..])
+            {
                 number.national = trim(number.national, prefix.len());
             }
         }
-- 
2.43.0


From 83039cdf867b735c6cb4ca10a74ad50b9352085e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:18 +0000
Subject: [PATCH 21/22] fix: do not take the calling code after a plus for an
 international prefix

With Finland as default region, +994 12 345 67 89 was read as +1 23456789
because 994 matches the Finnish international prefix. What follows a plus is
the calling code unless it starts with a 0, which no calling code does.
---
 src/parser/helper.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index 0b7df23..d63ac13 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -247,10 +247,13 @@ pub fn international_prefix<'a>(idd: Option<&Regex>, mut number: Number<'a>) ->
         number.national = trim(number.national, start);
         number = normalize(number, mappings);
 
-        if !idd
-            .and_then(|re| re.find(&number.national))
-            .map(|m| m.start() == 0)
-            .unwrap_or(false)
+        // No calling code starts with a 0, so only then can an IDD follow the
+        // plus; otherwise the digits that look like one are the calling code.
+        if !number.national.starts_with('0')
+            || !idd
+                .and_then(|re| re.find(&number.national))
+                .map(|m| m.start() == 0)
+                .unwrap_or(false)
         {
             return number;
         }
-- 
2.43.0


From 97e286fd6d8a587cf452ea536e99e0b25777004f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:24 +0000
Subject: [PATCH 22/22] fix: convert the decimal digits of every script

The patterns accept any \p{Nd} as a digit, but the digits of all but fifteen
scripts were dropped when normalizing, so an extension written in Khmer or
mathematical digits came out empty.
---
 src/parser/helper.rs | 115 ++++++++++++++++++++++++++++++-------------
 1 file changed, 82 insertions(+), 33 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index d63ac13..4c4f409 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -425,39 +425,88 @@ impl<T: AsChar> AsCharExt for T {
             return Some(ch);
         }
 
-        match ch {
-            '٠' | '۰' | '߀' | '०' | '০' | '੦' | '૦' | '୦' | '௦' | '౦' | '೦' | '൦' | '๐' | '໐'
-            | '０' => Some('0'),
-
-            '١' | '۱' | '߁' | '१' | '১' | '੧' | '૧' | '୧' | '௧' | '౧' | '೧' | '൧' | '๑' | '໑'
-            | '１' => Some('1'),
-
-            '٢' | '۲' | '߂' | '२' | '২' | '੨' | '૨' | '୨' | '௨' | '౨' | '೨' | '൨' | '๒' | '໒'
-            | '２' => Some('2'),
-
-            '٣' | '۳' | '߃' | '३' | '৩' | '੩' | '૩' | '୩' | '௩' | '౩' | '೩' | '൩' | '๓' | '໓'
-            | '３' => Some('3'),
-
-            '٤' | '۴' | '߄' | '४' | '৪' | '੪' | '૪' | '୪' | '௪' | '౪' | '೪' | '൪' | '๔' | '໔'
-            | '４' => Some('4'),
-
-            '٥' | '۵' | '߅' | '५' | '৫' | '੫' | '૫' | '୫' | '௫' | '౫' | '೫' | '൫' | '๕' | '໕'
-            | '５' => Some('5'),
-
-            '٦' | '۶' | '߆' | '६' | '৬' | '੬' | '૬' | '୬' | '௬' | '౬' | '೬' | '൬' | '๖' | '໖'
-            | '６' => Some('6'),
-
-            '٧' | '۷' | '߇' | '७' | '৭' | '੭' | '૭' | '୭' | '௭' | '౭' | '೭' | '൭' | '๗' | '໗'
-            | '７' => Some('7'),
-
-            '٨' | '۸' | '߈' | '८' | '৮' | '੮' | '૮' | '୮' | '௮' | '౮' | '೮' | '൮' | '๘' | '໘'
-            | '８' => Some('8'),
-
-            '٩' | '۹' | '߉' | '९' | '৯' | '੯' | '૯' | '୯' | '௯' | '౯' | '೯' | '൯' | '๙' | '໙'
-            | '９' => Some('9'),
-
-            _ => None,
-        }
+        // The zero of the script the digit belongs to; these are all the ranges
+        // of `\p{Nd}`, which is what the patterns accept as a digit.
+        let zero = match ch {
+            '\u{0660}'..='\u{0669}' => '\u{0660}',
+            '\u{06f0}'..='\u{06f9}' => '\u{06f0}',
+            '\u{07c0}'..='\u{07c9}' => '\u{07c0}',
+            '\u{0966}'..='\u{096f}' => '\u{0966}',
+            '\u{09e6}'..='\u{09ef}' => '\u{09e6}',
+            '\u{0a66}'..='\u{0a6f}' => '\u{0a66}',
+            '\u{0ae6}'..='\u{0aef}' => '\u{0ae6}',
+            '\u{0b66}'..='\u{0b6f}' => '\u{0b66}',
+            '\u{0be6}'..='\u{0bef}' => '\u{0be6}',
+            '\u{0c66}'..='\u{0c6f}' => '\u{0c66}',
+            '\u{0ce6}'..='\u{0cef}' => '\u{0ce6}',
+            '\u{0d66}'..='\u{0d6f}' => '\u{0d66}',
+            '\u{0de6}'..='\u{0def}' => '\u{0de6}',
+            '\u{0e50}'..='\u{0e59}' => '\u{0e50}',
+            '\u{0ed0}'..='\u{0ed9}' => '\u{0ed0}',
+            '\u{0f20}'..='\u{0f29}' => '\u{0f20}',
+            '\u{1040}'..='\u{1049}' => '\u{1040}',
+            '\u{1090}'..='\u{1099}' => '\u{1090}',
+            '\u{17e0}'..='\u{17e9}' => '\u{17e0}',
+            '\u{1810}'..='\u{1819}' => '\u{1810}',
+            '\u{1946}'..='\u{194f}' => '\u{1946}',
+            '\u{19d0}'..='\u{19d9}' => '\u{19d0}',
+            '\u{1a80}'..='\u{1a89}' => '\u{1a80}',
+            '\u{1a90}'..='\u{1a99}' => '\u{1a90}',
+            '\u{1b50}'..='\u{1b59}' => '\u{1b50}',
+            '\u{1bb0}'..='\u{1bb9}' => '\u{1bb0}',
+            '\u{1c40}'..='\u{1c49}' => '\u{1c40}',
+            '\u{1c50}'..='\u{1c59}' => '\u{1c50}',
+            '\u{a620}'..='\u{a629}' => '\u{a620}',
+            '\u{a8d0}'..='\u{a8d9}' => '\u{a8d0}',
+            '\u{a900}'..='\u{a909}' => '\u{a900}',
+            '\u{a9d0}'..='\u{a9d9}' => '\u{a9d0}',
+            '\u{a9f0}'..='\u{a9f9}' => '\u{a9f0}',
+            '\u{aa50}'..='\u{aa59}' => '\u{aa50}',
+            '\u{abf0}'..='\u{abf9}' => '\u{abf0}',
+            '\u{ff10}'..='\u{ff19}' => '\u{ff10}',
+            '\u{104a0}'..='\u{104a9}' => '\u{104a0}',
+            '\u{10d30}'..='\u{10d39}' => '\u{10d30}',
+            '\u{10d40}'..='\u{10d49}' => '\u{10d40}',
+            '\u{11066}'..='\u{1106f}' => '\u{11066}',
+            '\u{110f0}'..='\u{110f9}' => '\u{110f0}',
+            '\u{11136}'..='\u{1113f}' => '\u{11136}',
+            '\u{111d0}'..='\u{111d9}' => '\u{111d0}',
+            '\u{112f0}'..='\u{112f9}' => '\u{112f0}',
+            '\u{11450}'..='\u{11459}' => '\u{11450}',
+            '\u{114d0}'..='\u{114d9}' => '\u{114d0}',
+            '\u{11650}'..='\u{11659}' => '\u{11650}',
+            '\u{116c0}'..='\u{116c9}' => '\u{116c0}',
+            '\u{116d0}'..='\u{116d9}' => '\u{116d0}',
+            '\u{116da}'..='\u{116e3}' => '\u{116da}',
+            '\u{11730}'..='\u{11739}' => '\u{11730}',
+            '\u{118e0}'..='\u{118e9}' => '\u{118e0}',
+            '\u{11950}'..='\u{11959}' => '\u{11950}',
+            '\u{11bf0}'..='\u{11bf9}' => '\u{11bf0}',
+            '\u{11c50}'..='\u{11c59}' => '\u{11c50}',
+            '\u{11d50}'..='\u{11d59}' => '\u{11d50}',
+            '\u{11da0}'..='\u{11da9}' => '\u{11da0}',
+            '\u{11f50}'..='\u{11f59}' => '\u{11f50}',
+            '\u{16130}'..='\u{16139}' => '\u{16130}',
+            '\u{16a60}'..='\u{16a69}' => '\u{16a60}',
+            '\u{16ac0}'..='\u{16ac9}' => '\u{16ac0}',
+            '\u{16b50}'..='\u{16b59}' => '\u{16b50}',
+            '\u{16d70}'..='\u{16d79}' => '\u{16d70}',
+            '\u{1ccf0}'..='\u{1ccf9}' => '\u{1ccf0}',
+            '\u{1d7ce}'..='\u{1d7d7}' => '\u{1d7ce}',
+            '\u{1d7d8}'..='\u{1d7e1}' => '\u{1d7d8}',
+            '\u{1d7e2}'..='\u{1d7eb}' => '\u{1d7e2}',
+            '\u{1d7ec}'..='\u{1d7f5}' => '\u{1d7ec}',
+            '\u{1d7f6}'..='\u{1d7ff}' => '\u{1d7f6}',
+            '\u{1e140}'..='\u{1e149}' => '\u{1e140}',
+            '\u{1e2f0}'..='\u{1e2f9}' => '\u{1e2f0}',
+            '\u{1e4f0}'..='\u{1e4f9}' => '\u{1e4f0}',
+            '\u{1e5f1}'..='\u{1e5fa}' => '\u{1e5f1}',
+            '\u{1e950}'..='\u{1e959}' => '\u{1e950}',
+            '\u{1fbf0}'..='\u{1fbf9}' => '\u{1fbf0}',
+            _ => return None,
+        };
+
+        char::from_digit(u32::from(ch) - u32::from(zero), 10)
     }
 }
 
-- 
2.43.0

