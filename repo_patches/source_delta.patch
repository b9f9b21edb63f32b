From f7d14774d60dc661d3d265acc805d795f4c6cba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:06 +0000
Subject: [PATCH 01/21] fix: keep the digits of valid numbers that begin with
 the national prefix

The viability guard compared the number with itself, and a second
unconditional strip removed the prefix twice: +7 800 200-02-00 lost its
leading digits. Also only report a carrier when the parsing pattern
captures one, and do not unwrap an optional first group.
---
 src/parser/helper.rs | 14 +++++++++-----
 src/parser/mod.rs    |  9 +--------
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index fb6dc53..fd0c39d 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -285,8 +285,12 @@ pub fn national_number<'a>(meta: &Metadata, mut number: Number<'a>) -> Number<'a
         re
     } else {
         if let Some(prefix) = meta.national_prefix.as_ref() {
-            if number.national.starts_with(prefix) {
-                number.national = trim(number.national, prefix.len());
+            if let Some(rest) = number.national.strip_prefix(prefix.as_str()) {
+                let general = &meta.descriptors.general;
+
+                if !general.is_match(&number.national) || general.is_match(rest) {
+                    number.national = trim(number.national, prefix.len());
+                }
             }
         }
 
@@ -318,11 +322,11 @@ pub fn national_number<'a>(meta: &Metadata, mut number: Number<'a>) -> Number<'a
         .unwrap();
 
     if transform.is_none() || last.is_none() {
-        if viable && !meta.descriptors.general.is_match(&number.national[start..]) {
+        if viable && !meta.descriptors.general.is_match(&number.national[end..]) {
             return number;
         }
 
-        number.carrier = last.filter(|_| groups > 0).map(Into::into);
+        number.carrier = last.filter(|_| groups > 1).map(Into::into);
 
         number.national = trim(number.national, end);
     } else if let Some(transform) = transform {
@@ -332,7 +336,7 @@ pub fn national_number<'a>(meta: &Metadata, mut number: Number<'a>) -> Number<'a
             return number;
         }
 
-        number.carrier = Some(first.unwrap().into());
+        number.carrier = first.filter(|_| groups > 2).map(Into::into);
         number.national = transformed.into();
     }
 
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 1db0b32..c5c0901 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -84,14 +84,7 @@ pub fn parse_with<S: AsRef<str>>(
 
     // Extract carrier and strip national prefix if present.
     if let Some(meta) = meta {
-        let mut potential = helper::national_number(meta, number.clone());
-
-        // Strip national prefix if present.
-        if let Some(prefix) = meta.national_prefix.as_ref() {
-            if potential.national.starts_with(prefix) {
-                potential.national = helper::trim(potential.national, prefix.len());
-            }
-        }
+        let potential = helper::national_number(meta, number.clone());
 
         if validator::length(meta, &potential, Type::Unknown) != Validation::TooShort {
             number = potential;
-- 
2.43.0


From 7625b0a7f2177c86e61173b0d76507ee48643f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:06 +0000
Subject: [PATCH 02/21] fix: report a descriptor without a pattern as an error
 instead of panicking

---
 src/metadata/database.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/metadata/database.rs b/src/metadata/database.rs
index a15e852..409d426 100644
--- a/src/metadata/database.rs
+++ b/src/metadata/database.rs
@@ -68,9 +68,6 @@ impl Database {
 
         let descriptor =
             |desc: loader::Descriptor| -> Result<super::Descriptor, error::LoadMetadata> {
-                desc.national_number.as_ref().unwrap();
-                desc.national_number.as_ref().unwrap();
-
                 Ok(super::Descriptor {
                     national_number: desc
                         .national_number
-- 
2.43.0


From cd45376995a73736e14100b7911f3f2515dc205a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:06 +0000
Subject: [PATCH 03/21] fix: match number descriptors against the whole
 national number

+972 33142764978 was valid because a prefix of it matched.
---
 src/metadata/database.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/metadata/database.rs b/src/metadata/database.rs
index 409d426..5b770ea 100644
--- a/src/metadata/database.rs
+++ b/src/metadata/database.rs
@@ -77,7 +77,8 @@ impl Database {
                                 name: "national_number".into(),
                             })
                         })
-                        .and_then(regex)?,
+                        // A descriptor describes whole numbers, not their beginnings.
+                        .and_then(|pattern| regex(format!("^(?:{pattern}\n)$")))?,
 
                     possible_length: desc.possible_length,
                     possible_local_length: desc.possible_local_length,
-- 
2.43.0


From 72891ef9fd9d0cdb234d81cd729de41d4a48a2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:06 +0000
Subject: [PATCH 04/21] fix: do not panic on databases that lack a region or
 name an unknown one

---
 src/parser/helper.rs | 4 +++-
 src/validator.rs     | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index fd0c39d..fb12752 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -191,7 +191,9 @@ pub fn country_code<'a>(
 
         country::Source::Default => {
             if let Some(country) = country {
-                let meta = database.by_id(country.as_ref()).unwrap();
+                let meta = database
+                    .by_id(country.as_ref())
+                    .ok_or(error::Parse::InvalidCountryCode)?;
                 let code = meta.country_code.to_string();
 
                 if number.national.starts_with(&code)
diff --git a/src/validator.rs b/src/validator.rs
index fb6ba37..4ca52f2 100644
--- a/src/validator.rs
+++ b/src/validator.rs
@@ -165,11 +165,11 @@ pub fn source_for(
         if let Some(pattern) = meta.leading_digits.as_ref() {
             if let Some(index) = pattern.find(national) {
                 if index.start() == 0 {
-                    return Some(Left(region.parse().unwrap()));
+                    return region.parse().ok().map(Left);
                 }
             }
         } else if number_type(meta, national) != Type::Unknown {
-            return Some(Left(region.parse().unwrap()));
+            return region.parse().ok().map(Left);
         }
     }
 
-- 
2.43.0


From 849df2814c6a20a5b7311dd69672a06b3288d43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:06 +0000
Subject: [PATCH 05/21] fix: keep a national number whose first digits equal
 the calling code

The length test could never succeed, so the Italian mobile number
391 234 5678 lost its first two digits.
---
 src/parser/helper.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index fb12752..fd0b2dc 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -16,8 +16,6 @@ use crate::consts;
 use crate::country;
 use crate::error;
 use crate::metadata::{Database, Metadata};
-use crate::phone_number::Type;
-use crate::validator;
 use fnv::FnvHashMap;
 use nom::{
     AsChar, IResult,
@@ -197,8 +195,7 @@ pub fn country_code<'a>(
                 let code = meta.country_code.to_string();
 
                 if number.national.starts_with(&code)
-                    && (!meta.descriptors().general().is_match(&number.national)
-                        || !validator::length(meta, &number, Type::Unknown).is_possible())
+                    && !meta.descriptors().general().is_match(&number.national)
                 {
                     number.country = country::Source::Number;
                     number.national = trim(number.national, code.len());
-- 
2.43.0


From f329b90172e6c8ddfd6f5bc366cebfcbd5211a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:06 +0000
Subject: [PATCH 06/21] fix: do not take a calling code after a plus for an IDD

With Finland as reference, +994 40 123 45 67 became +40 1234567.
---
 src/parser/helper.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index fd0b2dc..936588e 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -244,10 +244,12 @@ pub fn international_prefix<'a>(idd: Option<&Regex>, mut number: Number<'a>) ->
         number.national = trim(number.national, start);
         number = normalize(number, mappings);
 
-        if !idd
-            .and_then(|re| re.find(&number.national))
-            .map(|m| m.start() == 0)
-            .unwrap_or(false)
+        // No calling code starts with 0, so only then can an IDD follow the PLUS.
+        if !number.national.starts_with('0')
+            || !idd
+                .and_then(|re| re.find(&number.national))
+                .map(|m| m.start() == 0)
+                .unwrap_or(false)
         {
             return number;
         }
-- 
2.43.0


From c4c39b5c4fd671b3817e54b0f9f0709639558274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:54 +0000
Subject: [PATCH 07/21] fix: split a leading +digits group that is not a
 calling code by itself

+1650-253-0000 and tel:331-6005;phone-context=+64-3 were rejected.
---
 src/parser/helper.rs | 46 ++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index 936588e..c5e5d1e 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -158,31 +158,39 @@ pub fn country_code<'a>(
             }
 
             // If the prefix was already extracted, check it is valid.
-            if let Some(prefix_ref) = number.prefix.as_ref() {
-                let prefix = prefix_ref.parse()?;
-
-                if database.by_code(&prefix).is_none() {
+            if let Some(prefix) = number.prefix.take() {
+                if prefix.is_empty() {
                     return Err(error::Parse::InvalidCountryCode);
-                } else {
-                    return Ok(number);
                 }
-            } else {
-                // Check the possible country code does not start with a 0 since those
-                // are invalid.
-                if number.national.starts_with('0') {
-                    return Err(error::Parse::InvalidCountryCode);
+
+                if prefix
+                    .parse()
+                    .is_ok_and(|code: u16| database.by_code(&code).is_some())
+                {
+                    number.prefix = Some(prefix);
+                    return Ok(number);
                 }
 
-                // Try to find the first available country code.
-                for len in 1..consts::MAX_LENGTH_FOR_COUNTRY_CODE + 1 {
-                    let code = number.national[..len].parse().unwrap();
+                // Otherwise it runs past (or ends within) the country code, like in
+                // "+1650-253-0000" or "253-0000;phone-context=+1650".
+                number.national = prefix + number.national;
+            }
 
-                    if database.by_code(&code).is_some() {
-                        number.national = trim(number.national, len);
-                        number.prefix = Some(code.to_string().into());
+            // Check the possible country code does not start with a 0 since those
+            // are invalid.
+            if number.national.starts_with('0') {
+                return Err(error::Parse::InvalidCountryCode);
+            }
 
-                        return Ok(number);
-                    }
+            // Try to find the first available country code.
+            for len in 1..consts::MAX_LENGTH_FOR_COUNTRY_CODE + 1 {
+                let code = number.national[..len].parse().unwrap();
+
+                if database.by_code(&code).is_some() {
+                    number.national = trim(number.national, len);
+                    number.prefix = Some(code.to_string().into());
+
+                    return Ok(number);
                 }
             }
         }
-- 
2.43.0


From ec189ebf4cbf0e72dce7d20f61806dd8ecc001e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:54 +0000
Subject: [PATCH 08/21] fix: accept every extension notation the extension
 pattern recognises

tel:+16502530000;ext=123 and 650 253 0000 456# were rejected because only
one of the three alternatives was read.
---
 src/parser/natural.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/parser/natural.rs b/src/parser/natural.rs
index 6428f5c..df5a057 100644
--- a/src/parser/natural.rs
+++ b/src/parser/natural.rs
@@ -15,18 +15,11 @@
 use crate::consts;
 use crate::parser::helper::*;
 use nom::IResult;
-use nom::error::ErrorKind;
 
 pub fn phone_number(i: &str) -> IResult<&str, Number<'_>> {
     let (_, i) = extract(i)?;
     let extension = consts::EXTN_PATTERN.captures(i);
 
-    if let Some(c) = extension.as_ref() {
-        if c.get(0).is_none() || c.get(2).is_none() {
-            return Err(nom::Err::Failure(nom::error::Error::new(i, ErrorKind::Eof)));
-        }
-    }
-
     Ok((
         "",
         Number {
@@ -38,8 +31,8 @@ pub fn phone_number(i: &str) -> IResult<&str, Number<'_>> {
 
             extension: extension
                 .as_ref()
-                .map(|c| c.get(2).unwrap().as_str())
-                .map(Into::into),
+                .and_then(|c| c.iter().skip(1).flatten().next())
+                .map(|m| m.as_str().into()),
 
             ..Default::default()
         },
-- 
2.43.0


From f77b7ff4adb8d3bc52c927edbad38d7fe5735260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:54 +0000
Subject: [PATCH 09/21] fix: do not report an extension without digits

---
 src/parser/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index c5c0901..b799256 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -107,7 +107,10 @@ pub fn parse_with<S: AsRef<str>>(
 
         national: number.national.parse()?,
 
-        extension: number.extension.map(|s| Extension(s.into_owned())),
+        extension: number
+            .extension
+            .filter(|s| !s.is_empty())
+            .map(|s| Extension(s.into_owned())),
         carrier: number.carrier.map(|s| Carrier(s.into_owned())),
     })
 }
-- 
2.43.0


From f30a6d8638dc42591e1d768f28c3dfb5a28feaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:54 +0000
Subject: [PATCH 10/21] fix: classify numbers with their significant leading
 zeros

+39 02 3661 8300 was valid, but of unknown type and in no country.
---
 src/phone_number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/phone_number.rs b/src/phone_number.rs
index 36a7e69..a5d1f2f 100644
--- a/src/phone_number.rs
+++ b/src/phone_number.rs
@@ -209,7 +209,7 @@ impl PhoneNumber {
         match validator::source_for(
             database,
             self.code.value(),
-            &self.national.value().to_string(),
+            &self.national.to_string(),
         )? {
             Left(region) => database.by_id(region.as_ref()),
             Right(code) => database.by_code(&code).and_then(|m| m.into_iter().next()),
@@ -234,7 +234,7 @@ impl PhoneNumber {
     /// Determine the [`Type`] of the phone number with the given `Database`.
     pub fn number_type_with(&self, database: &Database) -> Type {
         match self.metadata(database) {
-            Some(metadata) => validator::number_type(metadata, &self.national.value().to_string()),
+            Some(metadata) => validator::number_type(metadata, &self.national.to_string()),
             None => Type::Unknown,
         }
     }
-- 
2.43.0


From 2df96ff911b0dd8ae1f74c52da989361d6f0daad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:54 +0000
Subject: [PATCH 11/21] fix: report malformed possible lengths as an error
 instead of panicking

---
 src/metadata/loader.rs | 10 +++++-----
 src/phone_number.rs    |  6 +-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/metadata/loader.rs b/src/metadata/loader.rs
index 769357c..c24cab6 100644
--- a/src/metadata/loader.rs
+++ b/src/metadata/loader.rs
@@ -318,14 +318,14 @@ fn descriptor<R: BufRead>(
         let mut result = Vec::new();
 
         for part in value.split(',').map(str::trim) {
-            if part.as_bytes()[0] == b'[' {
-                let mut parts = part.split('-');
+            if let Some(range) = part.strip_prefix('[') {
+                let mut parts = range.strip_suffix(']').unwrap_or(range).split('-');
 
                 if let (Some(start), Some(end)) = (parts.next(), parts.next()) {
-                    let start = start[1..].parse::<u16>()?;
-                    let end = end[..end.len() - 1].parse::<u16>()?;
+                    let start = start.parse::<u16>()?;
+                    let end = end.parse::<u16>()?;
 
-                    for i in start..end + 1 {
+                    for i in start..=end {
                         result.push(i);
                     }
                 }
diff --git a/src/phone_number.rs b/src/phone_number.rs
index a5d1f2f..1c20e8c 100644
--- a/src/phone_number.rs
+++ b/src/phone_number.rs
@@ -206,11 +206,7 @@ impl PhoneNumber {
     /// Get the metadata that applies to this phone number from the given
     /// database.
     pub fn metadata<'a>(&self, database: &'a Database) -> Option<&'a Metadata> {
-        match validator::source_for(
-            database,
-            self.code.value(),
-            &self.national.to_string(),
-        )? {
+        match validator::source_for(database, self.code.value(), &self.national.to_string())? {
             Left(region) => database.by_id(region.as_ref()),
             Right(code) => database.by_code(&code).and_then(|m| m.into_iter().next()),
         }
-- 
2.43.0


From 655685caf44a66bcf953f41fca92e9ce672778e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:16 +0000
Subject: [PATCH 12/21] fix: only use a number format whose pattern matches the
 whole number

A format without leading digits was used for any number.
---
 src/formatter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 288783b..ce06ae4 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -209,18 +209,18 @@ fn formatter<'a>(number: &str, formats: &'a [Format]) -> Option<&'a Format> {
     for format in formats {
         let leading = format.leading_digits();
 
-        if leading.is_empty()
+        if (leading.is_empty()
             || leading
                 .last()
                 .unwrap()
                 .find(number)
                 .map(|m| m.start() == 0)
+                .unwrap_or(false))
+            && format
+                .pattern()
+                .find(number)
+                .map(|m| m.start() == 0 && m.end() == number.len())
                 .unwrap_or(false)
-                && format
-                    .pattern()
-                    .find(number)
-                    .map(|m| m.start() == 0 && m.end() == number.len())
-                    .unwrap_or(false)
         {
             return Some(format);
         }
-- 
2.43.0


From c5ea2740c12d7de33305062b87d9f979182be910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:16 +0000
Subject: [PATCH 13/21] fix: do not panic on number formats that reference no
 group

---
 src/formatter.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index ce06ae4..58dd8d1 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -240,13 +240,10 @@ fn replace(
         .pattern()
         .replace(
             national,
-            &*if let Some(transform) = transform {
-                let first = consts::FIRST_GROUP
-                    .captures(formatter.format())
-                    .unwrap()
-                    .get(1)
-                    .unwrap()
-                    .as_str();
+            &*if let (Some(transform), Some(first)) =
+                (transform, consts::FIRST_GROUP.find(formatter.format()))
+            {
+                let first = first.as_str();
                 let format = transform.replace(consts::NP, meta.national_prefix().unwrap_or(""));
                 let format = format.replace(consts::FG, &format!("${}", first));
                 let format = format.replace(consts::CC, carrier.unwrap_or(""));
-- 
2.43.0


From 6db74252dc56e562fcce845c7bf113975124c822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:17 +0000
Subject: [PATCH 14/21] fix: iterate over all entries, also the non-geographic
 ones sharing an id

---
 src/metadata/database.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metadata/database.rs b/src/metadata/database.rs
index 5b770ea..499e258 100644
--- a/src/metadata/database.rs
+++ b/src/metadata/database.rs
@@ -245,6 +245,6 @@ impl Database {
 
     /// Iterator over all `Metadata` entries in this database.
     pub fn iter(&self) -> impl Iterator<Item = &Metadata> {
-        self.by_id.values().map(AsRef::as_ref)
+        self.by_code.values().flatten().map(AsRef::as_ref)
     }
 }
-- 
2.43.0


From 90125b98ff08b7c35636676b3b5ec978481c784c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:17 +0000
Subject: [PATCH 15/21] fix: keep the packed leading zero count of a national
 number to itself

It wrapped around at 256 zeros, and leaked into the u64 conversion.
---
 src/national_number.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/national_number.rs b/src/national_number.rs
index d061926..9ef1166 100644
--- a/src/national_number.rs
+++ b/src/national_number.rs
@@ -28,7 +28,9 @@ impl FromStr for NationalNumber {
         let zeros = s.chars().take_while(|&c| c == '0').count();
         let value = s[zeros..].parse::<u64>()?;
 
-        NationalNumber::new(value, zeros as u8)
+        let zeros = u8::try_from(zeros).map_err(|_| crate::error::Parse::TooLong)?;
+
+        NationalNumber::new(value, zeros)
     }
 }
 
@@ -76,7 +78,7 @@ impl NationalNumber {
 
 impl From<NationalNumber> for u64 {
     fn from(n: NationalNumber) -> u64 {
-        n.value
+        n.value()
     }
 }
 
-- 
2.43.0


From b488b85e25e1d0d83c24c1843ecf49b21215f17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:17 +0000
Subject: [PATCH 16/21] fix: accept the full-width full stop as punctuation

---
 src/parser/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index c5e5d1e..4a429bb 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -76,7 +76,7 @@ pub fn ieof(i: &str) -> IResult<&str, ()> {
 
 pub fn punctuation(i: &str) -> IResult<&str, char> {
     one_of(
-        "-x\u{2010}\u{2011}\u{2012}\u{2013}\u{2014}\u{2015}\u{2212}\u{30FC}\u{FF0D}-\u{FF0F} \u{00A0}\u{00AD}\u{200B}\u{2060}\u{3000}()\u{FF08}\u{FF09}\u{FF3B}\u{FF3D}.[]/~\u{2053}\u{223C}\u{FF5E}",
+        "-x\u{2010}\u{2011}\u{2012}\u{2013}\u{2014}\u{2015}\u{2212}\u{30FC}\u{FF0D}\u{FF0E}\u{FF0F} \u{00A0}\u{00AD}\u{200B}\u{2060}\u{3000}()\u{FF08}\u{FF09}\u{FF3B}\u{FF3D}.[]/~\u{2053}\u{223C}\u{FF5E}",
     )(i)
 }
 
-- 
2.43.0


From f25d5ed426b5b2a51d9ed7a0f4a7157d6c170c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:26 +0000
Subject: [PATCH 17/21] fix: count a separated calling code towards the minimum
 length

---
 src/parser/helper.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index 4a429bb..fe4e334 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -153,7 +153,9 @@ pub fn country_code<'a>(
         // The country source was found from the initial PLUS or it was extract
         // from the number already.
         country::Source::Plus | country::Source::Idd | country::Source::Number => {
-            if number.national.len() <= consts::MIN_LENGTH_FOR_NSN {
+            let prefixed = number.prefix.as_ref().map_or(0, |p| p.len());
+
+            if prefixed + number.national.len() <= consts::MIN_LENGTH_FOR_NSN {
                 return Err(error::Parse::TooShortNsn);
             }
 
-- 
2.43.0


From 219216c7a73ed3b1fda2bec3d6ef304e67b91a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:29 +0000
Subject: [PATCH 18/21] fix: accept numbers short of digits only without their
 separated calling code

---
 src/parser/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index b799256..6b119ff 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -50,7 +50,14 @@ pub fn parse_with<S: AsRef<str>>(
     // Try to parse the number as RFC3966 or natural language.
     let (_, mut number) = phone_number(string.as_ref()).or(Err(error::Parse::NoNumber))?;
 
-    if !is_viable(&number.national) {
+    // A calling code that was split off belongs to the number too.
+    let viable = is_viable(&number.national)
+        || number
+            .prefix
+            .as_ref()
+            .is_some_and(|prefix| is_viable(format!("{prefix}{}", number.national)));
+
+    if !viable {
         return Err(error::Parse::NoNumber);
     }
 
-- 
2.43.0


From 124bb9e0e13d23f7cf9ce81cc539d6d4c86d0db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:22 +0000
Subject: [PATCH 19/21] fix: keep an international template written before the
 national one

Order did not matter for anything else; an intlFormat, or NA, in front of
the format was silently replaced by the national template.
---
 src/metadata/loader.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/metadata/loader.rs b/src/metadata/loader.rs
index c24cab6..6bfd0c3 100644
--- a/src/metadata/loader.rs
+++ b/src/metadata/loader.rs
@@ -516,20 +516,13 @@ fn format<R: BufRead>(
                 name @ b"leadingDigits" => format.leading_digits.push(text(reader, name)?),
 
                 name @ b"format" => {
-                    let text = text(reader, name)?;
-
-                    format.format = Some(text.clone());
-                    international = Some(text);
+                    format.format = Some(text(reader, name)?);
                 }
 
                 name @ b"intlFormat" => {
                     let text = text(reader, name)?;
 
-                    if text == "NA" {
-                        international = None;
-                    } else {
-                        international = Some(text);
-                    }
+                    international = Some(if text == "NA" { None } else { Some(text) });
                 }
 
                 name => {
@@ -542,6 +535,7 @@ fn format<R: BufRead>(
             },
 
             Event::End(ref e) if e.name().into_inner() == name => {
+                let international = international.unwrap_or(format.format.clone());
                 let international = international.map(|v| {
                     let mut format = format.clone();
                     format.format = Some(v);
-- 
2.43.0


From 6a902857ee948d981b4aa8e93f281f9fe49fe258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:10 +0000
Subject: [PATCH 20/21] fix: extension digits of every script are kept

The extension pattern accepts any decimal digit but only those of
fifteen scripts were converted to ASCII; the others were dropped.
---
 src/consts.rs        | 11 +++++++++++
 src/parser/helper.rs |  4 +++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/consts.rs b/src/consts.rs
index db5f69e..8835eff 100644
--- a/src/consts.rs
+++ b/src/consts.rs
@@ -244,6 +244,17 @@ pub const VALID_PUNCTUATION: &str = r"-x\x{2010}-\x{2015}\x{2212}\x{30FC}\x{FF0D
 /// Pattern for digits.
 pub const DIGITS: &str = r"\p{Nd}";
 
+/// The zero of every other block of ten `\p{Nd}` digits, those the table in
+/// `AsCharExt::as_dec_digit` does not spell out.
+pub const DIGIT_BLOCKS: &[u32] = &[
+    0x0DE6, 0x0F20, 0x1040, 0x1090, 0x17E0, 0x1810, 0x1946, 0x19D0, 0x1A80, 0x1A90, 0x1B50, 0x1BB0,
+    0x1C40, 0x1C50, 0xA620, 0xA8D0, 0xA900, 0xA9D0, 0xA9F0, 0xAA50, 0xABF0, 0x104A0, 0x10D30,
+    0x10D40, 0x11066, 0x110F0, 0x11136, 0x111D0, 0x112F0, 0x11450, 0x114D0, 0x11650, 0x116C0,
+    0x116D0, 0x116DA, 0x11730, 0x118E0, 0x11950, 0x11BF0, 0x11C50, 0x11D50, 0x11DA0, 0x11F50,
+    0x16130, 0x16A60, 0x16AC0, 0x16B50, 0x16D70, 0x1CCF0, 0x1D7CE, 0x1D7D8, 0x1D7E2, 0x1D7EC,
+    0x1D7F6, 0x1E140, 0x1E2F0, 0x1E4F0, 0x1E5F1, 0x1E950, 0x1FBF0,
+];
+
 /// Plus characters.
 pub const PLUS_CHARS: &str = r"\+\x{FF0B}";
 
diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index fe4e334..0e414bb 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -459,7 +459,9 @@ impl<T: AsChar> AsCharExt for T {
             '٩' | '۹' | '߉' | '९' | '৯' | '੯' | '૯' | '୯' | '௯' | '౯' | '೯' | '൯' | '๙' | '໙'
             | '９' => Some('9'),
 
-            _ => None,
+            _ => consts::DIGIT_BLOCKS
+                .iter()
+                .find_map(|zero| char::from_digit((ch as u32).checked_sub(*zero)?, 10)),
         }
     }
 }
-- 
2.43.0


From cb4bf5eb87bb325df3ff06b2fa09f183361b27cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:33 +0000
Subject: [PATCH 21/21] fix: keep the possible lengths of a description in
 ascending order

They are documented to be sorted from smallest to biggest, and the parser
takes the first for the smallest: with lengths written as "9,7" a national
prefix was kept before a number of eight digits.
---
 src/metadata/loader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/metadata/loader.rs b/src/metadata/loader.rs
index 6bfd0c3..edb86fe 100644
--- a/src/metadata/loader.rs
+++ b/src/metadata/loader.rs
@@ -334,6 +334,9 @@ fn descriptor<R: BufRead>(
             }
         }
 
+        // From smallest to biggest, in whatever order they are written.
+        result.sort_unstable();
+
         Ok(result)
     }
 
-- 
2.43.0

