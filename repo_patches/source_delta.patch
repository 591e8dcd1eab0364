From 6b4725adf68a6f14ad77e1298fa87dd2142c1b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:27 +0000
Subject: [PATCH 01/27] verif hook: src/verif.rs behind cfg(keride_verif)

---
 src/lib.rs        |  5 ++++
 src/messaging.rs  | 11 +++++++
 src/receipting.rs |  5 ++++
 src/verif.rs      | 74 +++++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 95 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 3537902..92e9b8f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,7 @@
 // TODO: remove before 1.0.0
 #![allow(dead_code)]
+// `keride_verif` opens private items to external checking harnesses
+#![allow(unexpected_cfgs)]
 
 #[macro_use]
 #[cfg(feature = "cesr")]
@@ -21,3 +23,6 @@ pub mod error;
 pub mod messaging;
 pub mod receipting;
 pub mod seal;
+
+#[cfg(keride_verif)]
+pub mod verif;
diff --git a/src/messaging.rs b/src/messaging.rs
index 6fd5a7c..169d18f 100644
--- a/src/messaging.rs
+++ b/src/messaging.rs
@@ -64,3 +64,14 @@ fn messagize(
 
     Ok(message + &atc)
 }
+
+#[cfg(keride_verif)]
+pub(crate) fn verif_messagize(
+    serder: &Serder,
+    sigers: Option<&[Siger]>,
+    seal: Option<&Seal>,
+    wigers: Option<&[Siger]>,
+    cigars: Option<&[Cigar]>,
+) -> Result<String> {
+    messagize(serder, sigers, seal, wigers, cigars)
+}
diff --git a/src/receipting.rs b/src/receipting.rs
index 64d7792..b622169 100644
--- a/src/receipting.rs
+++ b/src/receipting.rs
@@ -33,3 +33,8 @@ fn receipt(
 
     Serder::new_with_ked(&ked, None, None)
 }
+
+#[cfg(keride_verif)]
+pub(crate) fn verif_receipt(pre: &str, sn: u128, said: &str) -> Result<Serder> {
+    receipt(pre, sn, said, None, None)
+}
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..cb09d02
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,74 @@
+//! Doors for external checking harnesses (compiled only with `--cfg keride_verif`).
+
+pub use crate::cesr::core::util;
+
+use crate::error::Result;
+
+pub mod hash {
+    pub fn digest(code: &str, ser: &[u8]) -> crate::error::Result<Vec<u8>> {
+        crate::cesr::crypto::hash::digest(code, ser)
+    }
+}
+
+pub mod salt {
+    pub fn stretch(
+        pwd: &[u8],
+        salt: &[u8],
+        length: usize,
+        tier: &str,
+    ) -> crate::error::Result<Vec<u8>> {
+        crate::cesr::crypto::salt::stretch(pwd, salt, length, tier)
+    }
+}
+
+pub mod sign {
+    use crate::cesr::crypto::sign;
+    use crate::error::Result;
+
+    pub fn generate(code: &str) -> Result<Vec<u8>> {
+        sign::generate(code)
+    }
+
+    pub fn public_key(code: &str, private_key: &[u8]) -> Result<Vec<u8>> {
+        sign::public_key(code, private_key)
+    }
+
+    pub fn sign(code: &str, private_key: &[u8], ser: &[u8]) -> Result<Vec<u8>> {
+        sign::sign(code, private_key, ser)
+    }
+
+    pub fn verify(code: &str, public_key: &[u8], sig: &[u8], ser: &[u8]) -> Result<bool> {
+        sign::verify(code, public_key, sig, ser)
+    }
+}
+
+/// An event seal, in the public types a harness can build.
+pub struct Seal<'a> {
+    pub i: &'a str,
+    pub s: &'a str,
+    pub d: &'a str,
+    pub last: Option<bool>,
+}
+
+pub fn messagize(
+    serder: &crate::cesr::Serder,
+    sigers: Option<&[crate::cesr::Siger]>,
+    seal: Option<&Seal>,
+    wigers: Option<&[crate::cesr::Siger]>,
+    cigars: Option<&[crate::cesr::Cigar]>,
+) -> Result<String> {
+    let seal = seal.map(|s| crate::seal::Seal::new(s.i, s.s, s.d, s.last));
+    crate::messaging::verif_messagize(serder, sigers, seal.as_ref(), wigers, cigars)
+}
+
+pub fn receipt(pre: &str, sn: u128, said: &str) -> Result<crate::cesr::Serder> {
+    crate::receipting::verif_receipt(pre, sn, said)
+}
+
+pub fn dumps(ked: &crate::data::Value) -> Result<Vec<u8>> {
+    crate::cesr::core::common::dumps(ked, None)
+}
+
+pub fn loads(raw: &[u8], size: Option<u32>) -> Result<crate::data::Value> {
+    crate::cesr::core::common::loads(raw, size, None)
+}
-- 
2.43.0


From 30009ab5937e68fb081330c25c02948bc5376cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:50 +0000
Subject: [PATCH 02/27] fix: refuse qb64 cut inside a multibyte character
 instead of panicking

---
 src/cesr/core/counter/mod.rs | 8 +++-----
 src/cesr/core/indexer/mod.rs | 8 ++++----
 src/cesr/core/matter/mod.rs  | 8 ++++----
 src/cesr/core/tholder.rs     | 3 ++-
 src/cesr/core/util.rs        | 8 ++++++++
 5 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/cesr/core/counter/mod.rs b/src/cesr/core/counter/mod.rs
index b94ef26..85dd2a7 100644
--- a/src/cesr/core/counter/mod.rs
+++ b/src/cesr/core/counter/mod.rs
@@ -217,8 +217,7 @@ impl Counter {
             return err!(Error::EmptyMaterial("empty qb64".to_string()));
         }
 
-        // we validated there will be a char here, above.
-        let first = &qb64[..2];
+        let first = util::slice(qb64, 0, 2)?;
 
         let hs = tables::hardage(first)? as usize;
         if qb64.len() < hs {
@@ -228,8 +227,7 @@ impl Counter {
             )));
         }
 
-        // bounds already checked
-        let hard = &qb64[..hs];
+        let hard = util::slice(qb64, 0, hs)?;
         let szg = tables::sizage(hard)?;
         let cs = szg.hs + szg.ss;
 
@@ -240,7 +238,7 @@ impl Counter {
             )));
         }
 
-        let count_b64 = &qb64[szg.hs as usize..cs as usize];
+        let count_b64 = util::slice(qb64, szg.hs as usize, cs as usize)?;
         let count = util::b64_to_u64(count_b64)? as u32;
 
         self.code = hard.to_string();
diff --git a/src/cesr/core/indexer/mod.rs b/src/cesr/core/indexer/mod.rs
index d6f5e97..15feb11 100644
--- a/src/cesr/core/indexer/mod.rs
+++ b/src/cesr/core/indexer/mod.rs
@@ -394,7 +394,7 @@ pub trait Indexer: Default {
             )));
         }
 
-        let hard = &qb64[..hs];
+        let hard = util::slice(qb64, 0, hs)?;
         let szg = tables::sizage(hard)?;
 
         // both hard + soft code size
@@ -408,8 +408,8 @@ pub trait Indexer: Default {
             )));
         }
 
-        let index = util::b64_to_u32(&qb64[hs..(hs + ms as usize)])?;
-        let odx = &qb64[(hs + ms as usize)..(hs + (ms + szg.os) as usize)];
+        let index = util::b64_to_u32(util::slice(qb64, hs, hs + ms as usize)?)?;
+        let odx = util::slice(qb64, hs + ms as usize, hs + (ms + szg.os) as usize)?;
 
         let mut ondex: Option<u32> = None;
         if CurrentSigCodex::has_code(hard) {
@@ -458,7 +458,7 @@ pub trait Indexer: Default {
             )));
         }
 
-        let qb64 = &qb64[..fs as usize];
+        let qb64 = util::slice(qb64, 0, fs as usize)?;
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
 
diff --git a/src/cesr/core/matter/mod.rs b/src/cesr/core/matter/mod.rs
index fe9f663..754985b 100644
--- a/src/cesr/core/matter/mod.rs
+++ b/src/cesr/core/matter/mod.rs
@@ -329,8 +329,8 @@ pub trait Matter: Default {
             )));
         }
 
-        // bounds already checked
-        let hard = &qb64[..hs];
+        // length already checked, the slice can only fail inside a multibyte character
+        let hard = util::slice(qb64, 0, hs)?;
         let szg = tables::sizage(hard)?;
         let cs = szg.hs + szg.ss;
 
@@ -349,7 +349,7 @@ pub trait Matter: Default {
                     qb64.len(),
                 )));
             }
-            let soft = &qb64[szg.hs as usize..cs as usize];
+            let soft = util::slice(qb64, szg.hs as usize, cs as usize)?;
             let size = util::b64_to_u32(soft)?;
             ((size * 4) + cs, size)
         } else {
@@ -363,7 +363,7 @@ pub trait Matter: Default {
             )));
         }
 
-        let trim = &qb64[..fs as usize];
+        let trim = util::slice(qb64, 0, fs as usize)?;
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
 
diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index c3dfdfc..ebea3cb 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -3,6 +3,7 @@ use crate::{
         bexter::{tables as bexter, Bext, Bexter},
         matter::{tables as matter, Matter},
         number::{tables as number, Number},
+        util,
     },
     data::{dat, Array, Value},
     error::{err, Error, Result},
@@ -266,7 +267,7 @@ impl Tholder {
         let limen = String::from_utf8(limen.to_vec())?;
 
         let hs = matter::hardage(limen.chars().next().unwrap())? as usize;
-        let code = &limen[..hs];
+        let code = util::slice(&limen, 0, hs)?;
 
         if number::Codex::has_code(code) {
             let number = Number::new(None, None, None, None, None, Some(&limen), None)?;
diff --git a/src/cesr/core/util.rs b/src/cesr/core/util.rs
index 40fee97..107c7b3 100644
--- a/src/cesr/core/util.rs
+++ b/src/cesr/core/util.rs
@@ -281,6 +281,14 @@ pub fn nab_sextets(binary: &[u8], count: usize) -> Result<Vec<u8>> {
     Ok(out[..count].to_vec())
 }
 
+/// slice of qb64 text, refused when a bound is outside of it or falls inside a multibyte character
+pub(crate) fn slice(s: &str, from: usize, to: usize) -> Result<&str> {
+    match s.get(from..to) {
+        Some(s) => Ok(s),
+        None => err!(Error::ParseQb64(format!("no text between {from} and {to}"))),
+    }
+}
+
 #[cfg(test)]
 mod test {
     use crate::cesr::core::util;
-- 
2.43.0


From df41a870fd9c765cb6103f72f00e4d928be6919a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:27 +0000
Subject: [PATCH 03/27] fix: refuse qb64 and qb2 whose material is shorter than
 the code demands

---
 src/cesr/core/indexer/mod.rs | 12 +++++++++++-
 src/cesr/core/matter/mod.rs  | 14 ++++++++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/cesr/core/indexer/mod.rs b/src/cesr/core/indexer/mod.rs
index 15feb11..1a1d918 100644
--- a/src/cesr/core/indexer/mod.rs
+++ b/src/cesr/core/indexer/mod.rs
@@ -467,7 +467,12 @@ pub trait Indexer: Default {
             buf.push_str(&qb64[(cs as usize)..]);
 
             let mut paw = Vec::<u8>::new();
-            base64::engine::general_purpose::URL_SAFE.decode_vec(buf, &mut paw)?;
+            base64::engine::general_purpose::URL_SAFE.decode_vec(&buf, &mut paw)?;
+            if paw.len() != buf.len() * 3 / 4 {
+                return err!(Error::Conversion(format!(
+                    "improperly qualified material: code = '{hard}'"
+                )));
+            }
 
             let mut pi: i32 = 0;
             for b in &paw[..ps as usize] {
@@ -483,6 +488,11 @@ pub trait Indexer: Default {
             let buf = &qb64[cs as usize..];
             let mut paw = Vec::<u8>::new();
             base64::engine::general_purpose::URL_SAFE.decode_vec(buf, &mut paw)?;
+            if paw.len() != buf.len() * 3 / 4 {
+                return err!(Error::Conversion(format!(
+                    "improperly qualified material: code = '{hard}'"
+                )));
+            }
 
             let mut li: u32 = 0;
             for b in &paw[..szg.ls as usize] {
diff --git a/src/cesr/core/matter/mod.rs b/src/cesr/core/matter/mod.rs
index 754985b..04be6b9 100644
--- a/src/cesr/core/matter/mod.rs
+++ b/src/cesr/core/matter/mod.rs
@@ -373,6 +373,11 @@ pub trait Matter: Default {
             // decode base to leave pre-padded raw
             let mut paw = Vec::<u8>::new();
             b64_engine::URL_SAFE.decode_vec(&buf, &mut paw)?;
+            if paw.len() != buf.len() * 3 / 4 {
+                return err!(Error::Conversion(format!(
+                    "improperly qualified material: code = '{hard}'"
+                )));
+            }
             buf.zeroize();
 
             let mut pi: i32 = 0;
@@ -391,6 +396,11 @@ pub trait Matter: Default {
         } else {
             let mut paw = Vec::<u8>::new();
             b64_engine::URL_SAFE.decode_vec(&trim[cs as usize..], &mut paw)?;
+            if paw.len() != (fs - cs) as usize * 3 / 4 || paw.len() < szg.ls as usize {
+                return err!(Error::Conversion(format!(
+                    "improperly qualified material: code = '{hard}'"
+                )));
+            }
 
             let mut li: u32 = 0;
             for b in &paw[..szg.ls as usize] {
@@ -466,6 +476,10 @@ pub trait Matter: Default {
             )));
         }
 
+        if bfs < bcs + szg.ls {
+            return err!(Error::Conversion("no room for lead bytes".to_string()));
+        }
+
         let mut trim = qb2[..bfs as usize].to_vec();
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
-- 
2.43.0


From 17ef1c8fb2f29e42b68e50ce908d165021bf093a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:27 +0000
Subject: [PATCH 04/27] fix: lead byte is not part of the raw of an indexed
 primitive

---
 src/cesr/core/indexer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cesr/core/indexer/mod.rs b/src/cesr/core/indexer/mod.rs
index 1a1d918..9e5afd8 100644
--- a/src/cesr/core/indexer/mod.rs
+++ b/src/cesr/core/indexer/mod.rs
@@ -131,7 +131,7 @@ pub trait Indexer: Default {
             fs = (index * 4) + cs
         }
 
-        let rize = (fs - cs) * 3 / 4;
+        let rize = (fs - cs) * 3 / 4 - szg.ls;
         if raw.len() < rize as usize {
             return err!(Error::Shortage(format!(
                 "insufficient raw material: raw size = '{}', rize = '{rize}'",
@@ -507,7 +507,7 @@ pub trait Indexer: Default {
                 }
             }
 
-            paw[ps as usize..].to_owned()
+            paw[szg.ls as usize..].to_owned()
         };
 
         self.set_code(hard);
-- 
2.43.0


From 7e15717000d6149973850905271feabcffdf7607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:41 +0000
Subject: [PATCH 05/27] fix: check the index against its own digits when
 encoding an indexed primitive to binary

---
 src/cesr/core/indexer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cesr/core/indexer/mod.rs b/src/cesr/core/indexer/mod.rs
index 9e5afd8..01bd5ac 100644
--- a/src/cesr/core/indexer/mod.rs
+++ b/src/cesr/core/indexer/mod.rs
@@ -293,13 +293,13 @@ pub trait Indexer: Default {
         let cs = szg.hs + szg.ss;
         let ms = szg.ss - szg.os;
 
-        if index > 64_u32.pow(szg.ss) - 1 {
+        if index > 64_u32.pow(ms) - 1 {
             return err!(Error::InvalidVarIndex(format!(
                 "Invalid index = '{index}' for code = '{code}'."
             )));
         }
 
-        if szg.os == 1 && ondex > 64_u32.pow(szg.os) - 1 {
+        if szg.os > 0 && ondex > 64_u32.pow(szg.os) - 1 {
             return err!(Error::InvalidVarIndex(format!(
                 "Invalid ondex = '{ondex}' for os = '{}' and code = '{code}'.",
                 szg.os
-- 
2.43.0


From a505707862206af4a8bf0199f067ae74d44c7ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:12 +0000
Subject: [PATCH 06/27] fix: refuse an ondex that the code cannot carry

---
 src/cesr/core/indexer/mod.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/cesr/core/indexer/mod.rs b/src/cesr/core/indexer/mod.rs
index 01bd5ac..95e2547 100644
--- a/src/cesr/core/indexer/mod.rs
+++ b/src/cesr/core/indexer/mod.rs
@@ -98,11 +98,9 @@ pub trait Indexer: Default {
             )));
         }
 
-        if BothSigCodex::has_code(code) {
-            if ondex.is_none() {
-                // when not provided make ondex match index
-                ondex = Some(index);
-            }
+        if BothSigCodex::has_code(code) && ondex.is_none() {
+            // when not provided make ondex match index
+            ondex = Some(index);
         } else if let Some(o) = ondex {
             if o != index && szg.os == 0 {
                 return err!(Error::InvalidVarIndex(format!(
-- 
2.43.0


From d517a2d83cd18a160a28c382f9cc5f7ea305e63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:03 +0000
Subject: [PATCH 07/27] fix: refuse Base64 integers that do not fit instead of
 dropping their high digits

---
 src/cesr/core/util.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cesr/core/util.rs b/src/cesr/core/util.rs
index 107c7b3..679653d 100644
--- a/src/cesr/core/util.rs
+++ b/src/cesr/core/util.rs
@@ -146,6 +146,9 @@ pub fn b64_to_u32(b64: &str) -> Result<u32> {
     let mut out: u32 = 0;
 
     for c in b64.chars() {
+        if out > u32::MAX >> 6 {
+            return err!(Error::Conversion(format!("integer out of range: {b64}")));
+        }
         out = (out << 6) + (b64_char_to_index(c)? as u32);
     }
 
@@ -156,6 +159,9 @@ pub fn b64_to_u64(b64: &str) -> Result<u64> {
     let mut out: u64 = 0;
 
     for c in b64.chars() {
+        if out > u64::MAX >> 6 {
+            return err!(Error::Conversion(format!("integer out of range: {b64}")));
+        }
         out = (out << 6) + (b64_char_to_index(c)? as u64);
     }
 
-- 
2.43.0


From d40d753dbf4f01fada17dfbcbbc2d793f6a3c940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:18 +0000
Subject: [PATCH 08/27] fix: refuse unknown variable size codes

---
 src/cesr/core/matter/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cesr/core/matter/mod.rs b/src/cesr/core/matter/mod.rs
index 04be6b9..c9e6365 100644
--- a/src/cesr/core/matter/mod.rs
+++ b/src/cesr/core/matter/mod.rs
@@ -55,6 +55,9 @@ pub trait Matter: Default {
         let mut code = code.to_string();
         let rize =
             if tables::SMALL_VRZ_DEX.contains(&first) || tables::LARGE_VRZ_DEX.contains(&first) {
+                // a code that is not in the table has no family to pick from
+                tables::sizage(&code)?;
+
                 let rize = raw.len() as u32;
 
                 let ls = (3 - (rize % 3)) % 3;
-- 
2.43.0


From 15f7a79a6e55974a5a6c55f8b2ab3c35a64b5f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:00 +0000
Subject: [PATCH 09/27] fix: check the code that was read when parsing Number,
 Salter and Prefixer

---
 src/cesr/core/number.rs   | 1 +
 src/cesr/core/salter.rs   | 1 +
 src/prefexing/prefixer.rs | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/cesr/core/number.rs b/src/cesr/core/number.rs
index d5a27f9..6342f5b 100644
--- a/src/cesr/core/number.rs
+++ b/src/cesr/core/number.rs
@@ -90,6 +90,7 @@ impl Number {
             Matter::new(Some(code), raw, qb64b, qb64, qb2)?
         };
 
+        validate_code(&number.code)?;
         Ok(number)
     }
 
diff --git a/src/cesr/core/salter.rs b/src/cesr/core/salter.rs
index e8984a2..108224b 100644
--- a/src/cesr/core/salter.rs
+++ b/src/cesr/core/salter.rs
@@ -55,6 +55,7 @@ impl Salter {
                 Matter::new(Some(code), raw, qb64b, qb64, qb2)?
             };
 
+        validate_code(&salter.code)?;
         salter.tier = tier.unwrap_or(Tierage::low).to_string();
         Ok(salter)
     }
diff --git a/src/prefexing/prefixer.rs b/src/prefexing/prefixer.rs
index ed1ce86..9bf067e 100644
--- a/src/prefexing/prefixer.rs
+++ b/src/prefexing/prefixer.rs
@@ -304,6 +304,7 @@ impl Prefixer {
             Matter::new(Some(&code), Some(&raw), None, None, None)?
         };
 
+        validate_code(&prefixer.code)?;
         Ok(prefixer)
     }
 
-- 
2.43.0


From af7ebe6e9c68d16254264c8a684f5e301a427113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:13 +0000
Subject: [PATCH 10/27] fix: ECDSA_256r1N is not transferable

---
 src/cesr/core/matter/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cesr/core/matter/mod.rs b/src/cesr/core/matter/mod.rs
index c9e6365..7a364e0 100644
--- a/src/cesr/core/matter/mod.rs
+++ b/src/cesr/core/matter/mod.rs
@@ -174,8 +174,12 @@ pub trait Matter: Default {
     }
 
     fn transferable(&self) -> bool {
-        const CODES: &[&str] =
-            &[tables::Codex::Ed25519N, tables::Codex::ECDSA_256k1N, tables::Codex::Ed448N];
+        const CODES: &[&str] = &[
+            tables::Codex::Ed25519N,
+            tables::Codex::ECDSA_256k1N,
+            tables::Codex::ECDSA_256r1N,
+            tables::Codex::Ed448N,
+        ];
 
         !CODES.contains(&self.code().as_str())
     }
-- 
2.43.0


From c456e248d693273fab43618e026bf6db78161ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:14 +0000
Subject: [PATCH 11/27] fix: keep the field order when digesting a SAD without
 its ignored fields

---
 src/cesr/core/saider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cesr/core/saider.rs b/src/cesr/core/saider.rs
index 272cc74..edefc30 100644
--- a/src/cesr/core/saider.rs
+++ b/src/cesr/core/saider.rs
@@ -76,7 +76,7 @@ fn derive(
     let mut map = sad.to_map()?;
     for key in ignore.unwrap_or(&[]) {
         if map.contains_key(*key) {
-            map.remove(*key);
+            map.shift_remove(*key);
         }
     }
     let ser = dat!(&map);
-- 
2.43.0


From 1af72db366777d830461b410793a2e09e6aa510a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:28 +0000
Subject: [PATCH 12/27] fix: do not panic on JSON numbers that are not an i64

---
 src/data.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index b96be4d..99fc4ea 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -284,10 +284,11 @@ impl From<&JsonValue> for Value {
             JsonValue::Null => Self::Null,
             JsonValue::Bool(b) => Self::Boolean(*b),
             JsonValue::Number(n) => {
-                if n.to_string().contains('.') {
-                    Self::Number(Number::from(n.as_f64().unwrap()))
+                // integers out of range and floats written without a point are not an i64
+                if let Some(i) = n.as_i64() {
+                    Self::Number(Number::from(i))
                 } else {
-                    Self::Number(Number::from(n.as_i64().unwrap()))
+                    Self::Number(Number::from(n.as_f64().unwrap()))
                 }
             }
             JsonValue::String(s) => Self::String(s.clone()),
-- 
2.43.0


From aa944c755282813b99ee7dd7e86b49b070b0f056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:44 +0000
Subject: [PATCH 13/27] fix: refuse a message shorter than its version string
 says

---
 src/cesr/core/common.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cesr/core/common.rs b/src/cesr/core/common.rs
index bac8701..907abfd 100644
--- a/src/cesr/core/common.rs
+++ b/src/cesr/core/common.rs
@@ -244,6 +244,10 @@ pub(crate) fn loads(raw: &[u8], size: Option<u32>, kind: Option<&str>) -> Result
     let kind = kind.unwrap_or(Serialage::JSON);
 
     if let Some(size) = size {
+        if raw.len() < size as usize {
+            return err!(Error::Shortage(format!("need {size} bytes, got {}", raw.len())));
+        }
+
         match kind {
             Serialage::JSON => {
                 let v: serde_json::Value =
-- 
2.43.0


From facd9410f548199741e23a5004acb416f17e6617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:45 +0000
Subject: [PATCH 14/27] fix: report missing fields of a message instead of
 panicking

---
 src/cesr/core/creder.rs   | 4 ++--
 src/cesr/core/sadder.rs   | 6 +++---
 src/cesr/core/saider.rs   | 4 +++-
 src/cesr/core/serder.rs   | 6 +++---
 src/data.rs               | 8 ++++++++
 src/prefexing/prefixer.rs | 4 ++--
 6 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/cesr/core/creder.rs b/src/cesr/core/creder.rs
index c95215e..0d2a99a 100644
--- a/src/cesr/core/creder.rs
+++ b/src/cesr/core/creder.rs
@@ -57,11 +57,11 @@ impl Creder {
     }
 
     pub fn issuer(&self) -> Result<String> {
-        self.ked()[Ids::i].to_string()
+        self.ked().get(Ids::i)?.to_string()
     }
 
     pub fn schema(&self) -> Result<String> {
-        self.ked()[Ids::s].to_string()
+        self.ked().get(Ids::s)?.to_string()
     }
 
     pub fn subject(&self) -> Value {
diff --git a/src/cesr/core/sadder.rs b/src/cesr/core/sadder.rs
index ea3018a..36d52ba 100644
--- a/src/cesr/core/sadder.rs
+++ b/src/cesr/core/sadder.rs
@@ -114,7 +114,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&result.ked.get(Ids::d)?.to_string()?),
             None,
         )?);
 
@@ -144,7 +144,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&result.ked.get(Ids::d)?.to_string()?),
             None,
         )?);
 
@@ -174,7 +174,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&result.ked.get(Ids::d)?.to_string()?),
             None,
         )?);
 
diff --git a/src/cesr/core/saider.rs b/src/cesr/core/saider.rs
index edefc30..0632db1 100644
--- a/src/cesr/core/saider.rs
+++ b/src/cesr/core/saider.rs
@@ -61,6 +61,8 @@ fn derive(
     validate_code(code)?;
 
     let szg = matter::sizage(code)?;
+    // only an object can carry its own digest
+    sad.to_map()?;
     let mut sad = sad.clone();
 
     sad[label] = dat!(&String::from_utf8(vec![DUMMY; szg.fs as usize])?);
@@ -233,7 +235,7 @@ impl Saider {
             return Ok(false);
         }
 
-        if prefixed && sad[label].to_string()? != self.qb64()? {
+        if prefixed && sad.get(label)?.to_string()? != self.qb64()? {
             return Ok(false);
         }
 
diff --git a/src/cesr/core/serder.rs b/src/cesr/core/serder.rs
index 75445f1..de51a62 100644
--- a/src/cesr/core/serder.rs
+++ b/src/cesr/core/serder.rs
@@ -133,7 +133,7 @@ impl Serder {
     pub fn sner(&self) -> Result<Number> {
         let label = Ids::s;
 
-        Number::new(None, Some(&self.ked[label].to_string()?), None, None, None, None, None)
+        Number::new(None, Some(&self.ked.get(label)?.to_string()?), None, None, None, None, None)
     }
 
     pub fn sn(&self) -> Result<u128> {
@@ -173,7 +173,7 @@ impl Serder {
 
     pub fn pre(&self) -> Result<String> {
         let label = Ids::i;
-        self.ked[label].to_string()
+        self.ked.get(label)?.to_string()
     }
 
     pub fn preb(&self) -> Result<Vec<u8>> {
@@ -184,7 +184,7 @@ impl Serder {
         const ILKS: &[&str] = &[Ilkage::icp, Ilkage::rot, Ilkage::dip, Ilkage::drt];
 
         let label = Ids::t;
-        let ilk = self.ked[label].to_string()?;
+        let ilk = self.ked.get(label)?.to_string()?;
 
         Ok(ILKS.contains(&ilk.as_str()))
     }
diff --git a/src/data.rs b/src/data.rs
index 99fc4ea..3fe1aef 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -102,6 +102,14 @@ impl Value {
         }
     }
 
+    /// field of an object, an error when this is no object or has no such field
+    pub(crate) fn get(&self, label: &str) -> Result<&Value> {
+        match self {
+            Self::Object(map) if map.contains_key(label) => Ok(&map[label]),
+            _ => err!(CESRError::Value(format!("missing field {label}"))),
+        }
+    }
+
     pub fn to_json(&self) -> Result<String> {
         Ok(match self {
             Self::Null => "null".to_string(),
diff --git a/src/prefexing/prefixer.rs b/src/prefexing/prefixer.rs
index 9bf067e..31b5d0d 100644
--- a/src/prefexing/prefixer.rs
+++ b/src/prefexing/prefixer.rs
@@ -58,7 +58,7 @@ fn derive(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     const ILKS: &[&str] = &[Ilkage::icp, Ilkage::dip, Ilkage::vcp];
 
     let label = Ids::t;
-    let ilk = ked[label].to_string()?;
+    let ilk = ked.get(label)?.to_string()?;
     if !ILKS.contains(&ilk.as_str()) {
         return err!(Error::Value(format!("non-incepting ilk {ilk} found for prefix derivation")));
     }
@@ -333,7 +333,7 @@ impl Prefixer {
 
         let prefixed = prefixed.unwrap_or(false);
         let label = Ids::t;
-        let ilk = ked[label].to_string()?;
+        let ilk = ked.get(label)?.to_string()?;
         if !ILKS.contains(&ilk.as_str()) {
             return err!(Error::Value(format!(
                 "non-incepting ilk {ilk} found for prefix verification"
-- 
2.43.0


From 120d004f57b1cbc001e0268f8ec73fe6950bf5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:01 +0000
Subject: [PATCH 15/27] fix: cut pretty output at a character boundary

---
 src/cesr/core/sadder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cesr/core/sadder.rs b/src/cesr/core/sadder.rs
index 36d52ba..8c9dc39 100644
--- a/src/cesr/core/sadder.rs
+++ b/src/cesr/core/sadder.rs
@@ -199,8 +199,11 @@ pub trait Sadder: Default + Clone {
         let v: serde_json::Value = serde_json::from_str(&self.ked().to_json()?)?;
         match serde_json::to_string_pretty(&v) {
             Ok(s) => {
-                let size = size.unwrap_or(1024);
+                let mut size = size.unwrap_or(1024);
                 if s.len() > size {
+                    while !s.is_char_boundary(size) {
+                        size -= 1;
+                    }
                     Ok(s[..size].to_string())
                 } else {
                     Ok(s)
-- 
2.43.0


From d3c22055c602ed5011f45f8794955ed0160b3d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:16 +0000
Subject: [PATCH 16/27] fix: refuse versions and sizes that a version string
 cannot carry

---
 src/cesr/core/common.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cesr/core/common.rs b/src/cesr/core/common.rs
index 907abfd..30600f1 100644
--- a/src/cesr/core/common.rs
+++ b/src/cesr/core/common.rs
@@ -233,6 +233,10 @@ pub fn versify(
         return err!(Error::Validation(format!("invalid serialization kind {kind}")));
     }
 
+    if version.major > 0xf || version.minor > 0xf || size > 0xffffff {
+        return err!(Error::Value(format!("no room for version {version:?} or size {size}")));
+    }
+
     Ok(format!(
         "{ident}{major:01x}{minor:01x}{kind}{size:06x}_",
         major = version.major,
-- 
2.43.0


From 838cc7088a67255886800326ae87c397796d0d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:37 +0000
Subject: [PATCH 17/27] fix: refuse malformed threshold weights and zero
 denominators

---
 src/cesr/core/tholder.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index ebea3cb..9a8d4a5 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -40,9 +40,9 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
             let parts: Vec<&str> = weight.split(separator).collect();
             if parts.len() != 2 {
                 // must be 0 or 1
-                if parts[0] == "0" {
+                if weight == "0" {
                     clause.push(Rational32::new(0, 1));
-                } else if parts[0] == "1" {
+                } else if weight == "1" {
                     clause.push(Rational32::new(1, 1));
                 } else {
                     return err!(Error::Value("integral weight must be 0 or 1".to_string()));
@@ -50,6 +50,9 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
             } else {
                 let numer = parts[0].parse::<i32>()?;
                 let denom = parts[1].parse::<i32>()?;
+                if denom == 0 {
+                    return err!(Error::Value(format!("zero denominator in weight {weight}")));
+                }
                 if numer < 0 || denom < 0 {
                     return err!(Error::Value("negative weights do not make sense".to_string()));
                 }
-- 
2.43.0


From aca25d29db5b5a03325329f7e43f845897722a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:37 +0000
Subject: [PATCH 18/27] fix: refuse signature indices beyond the weight list
 instead of panicking

---
 src/cesr/core/tholder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index 9a8d4a5..25777ab 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -228,6 +228,9 @@ impl Tholder {
 
         let mut sats = vec![false; self.size() as usize];
         for index in indices {
+            if index >= self.size() {
+                return err!(Error::Value(format!("no weight for index {index}")));
+            }
             sats[index as usize] = true
         }
 
-- 
2.43.0


From c06fd3b4e4d1ed7c4cc9403ac32eb7faccb183aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:53 +0000
Subject: [PATCH 19/27] fix: count each signature index once against a numeric
 threshold

---
 src/cesr/core/tholder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index 25777ab..0ddd53d 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -210,6 +210,10 @@ impl Tholder {
     fn satisfy_numeric(&self, indices: &[u32]) -> Result<bool> {
         let thold = self.thold().to_i64()?;
 
+        let mut indices = indices.to_vec();
+        indices.sort();
+        indices.dedup();
+
         if thold > 0 && indices.len() >= thold as usize {
             return Ok(true);
         }
-- 
2.43.0


From a807532ffa33f7fe61e3bf1437090c0ec8d6eb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:06 +0000
Subject: [PATCH 20/27] fix: refuse an empty weighted threshold, which anything
 would satisfy

---
 src/cesr/core/tholder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index 0ddd53d..c2b5a6d 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -373,6 +373,10 @@ impl Tholder {
 
     fn process_weighted(&mut self, thold: &Value) -> Result<()> {
         let threshold = &values_to_rationals(thold)?;
+        if threshold.is_empty() {
+            return err!(Error::Value("empty weight list".to_string()));
+        }
+
         let mut size = 0;
         for clause in threshold {
             size += clause.len() as u32;
-- 
2.43.0


From 36e8c3df6977f3efc1de13eaf53a6a80a44cd0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:24 +0000
Subject: [PATCH 21/27] fix: sum threshold weights without overflow

---
 src/cesr/core/tholder.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index c2b5a6d..194c957 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -10,7 +10,7 @@ use crate::{
 };
 
 use lazy_static::lazy_static;
-use num_rational::Rational32;
+use num_rational::{Ratio, Rational32};
 
 #[derive(Debug, Clone, PartialEq)]
 pub struct Tholder {
@@ -27,6 +27,18 @@ impl Default for Tholder {
     }
 }
 
+/// sum + weight, refused when it does not fit
+fn add(sum: &Ratio<i128>, weight: &Rational32) -> Result<Ratio<i128>> {
+    let (n, d) = (*weight.numer() as i128, *weight.denom() as i128);
+    let left = sum.numer().checked_mul(d);
+    let right = sum.denom().checked_mul(n);
+    let numer = left.and_then(|l| right.and_then(|r| l.checked_add(r)));
+    match (numer, sum.denom().checked_mul(d)) {
+        (Some(numer), Some(denom)) => Ok(Ratio::new(numer, denom)),
+        _ => err!(Error::Value("sum of weights out of range".to_string())),
+    }
+}
+
 fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
     let threshold = value.to_vec()?;
     let separator = "/";
@@ -66,13 +78,13 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
     }
 
     for clause in &*clauses {
-        let mut sum = Rational32::new(0, 1);
+        let mut sum = Ratio::<i128>::new(0, 1);
 
         for weight in clause {
-            sum += weight;
+            sum = add(&sum, weight)?;
         }
 
-        if sum < Rational32::new(1, 1) {
+        if sum < Ratio::new(1, 1) {
             return err!(Error::Value(format!(
                 "invalid sith clause = {}, clause weight sums must be >= 1",
                 value.to_json()?
@@ -223,7 +235,7 @@ impl Tholder {
 
     fn satisfy_weighted(&self, indices: &[u32]) -> Result<bool> {
         lazy_static! {
-            static ref RATIONAL_ONE: Rational32 = Rational32::new(1, 1);
+            static ref RATIONAL_ONE: Ratio<i128> = Ratio::new(1, 1);
         }
 
         let mut indices = indices.to_vec();
@@ -242,10 +254,10 @@ impl Tholder {
 
         let mut wio: usize = 0;
         for clause in clauses {
-            let mut cw = Rational32::new(0, 1);
+            let mut cw = Ratio::<i128>::new(0, 1);
             for weight in clause {
                 if sats[wio] {
-                    cw += weight;
+                    cw = add(&cw, &weight)?;
                 }
                 wio += 1;
             }
-- 
2.43.0


From b9b805b8959591d5586d7eb26fdaae4e2ff53f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:35 +0000
Subject: [PATCH 22/27] fix: Pather::strip takes the root off the front only

---
 src/pathing/pather.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/pathing/pather.rs b/src/pathing/pather.rs
index 71a5cbe..76fe95b 100644
--- a/src/pathing/pather.rs
+++ b/src/pathing/pather.rs
@@ -134,22 +134,14 @@ impl Pather {
     }
 
     pub fn strip(&self, root: &Self) -> Result<Self> {
-        let mut root_path = root.path()?.to_vec()?;
-        let mut path = self.path()?.to_vec()?;
+        let root_path = root.path()?.to_vec()?;
+        let path = self.path()?.to_vec()?;
 
-        let hashmap: std::collections::HashMap<String, usize> =
-            path.iter().enumerate().map(|(x, y)| (y.to_string().unwrap(), x)).collect();
-
-        if root_path.len() > path.len() {
+        if !path.starts_with(&root_path) {
             return Ok(self.clone());
         }
 
-        root_path.reverse();
-        for p in root_path {
-            path.remove(hashmap[&p.to_string()?]);
-        }
-
-        Pather::new_with_path(&dat!(path.as_slice()))
+        Pather::new_with_path(&dat!(&path[root_path.len()..]))
     }
 
     pub fn starts_with(&self, path: &Self) -> Result<bool> {
-- 
2.43.0


From f5683b7603698e6b1e3f47360fd20e711d2e646b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:51 +0000
Subject: [PATCH 23/27] fix: SaltyCreator stretches at the tier it was made
 with, and refuses a bad salt

---
 src/signify/creating.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/signify/creating.rs b/src/signify/creating.rs
index 5b4c116..ba7c737 100644
--- a/src/signify/creating.rs
+++ b/src/signify/creating.rs
@@ -54,9 +54,11 @@ impl SaltyCreator {
         if let Some(s) = salter {
             salty_creator.salter = s;
         } else {
-            salty_creator.salter = Salter::new(tier, None, None, None, salt, None).unwrap();
+            salty_creator.salter = Salter::new(tier, None, None, None, salt, None)?;
         }
 
+        salty_creator.tier = salty_creator.salter.tier();
+
         Ok(salty_creator)
     }
 
@@ -103,7 +105,7 @@ impl SaltyCreator {
 
         let mut signers = vec![];
         for (i, c) in codes.iter().enumerate() {
-            let path = format!("{}{:x}{:x}", stem, &ridx, kidx + i as u16);
+            let path = format!("{}{:x}{:x}", stem, &ridx, kidx as usize + i);
             signers.push(
                 self.salter
                     .signer(Some(c), Some(transferable), Some(&path), Some(&self.tier), Some(temp))
-- 
2.43.0


From cb35b98748d1aa8bcb23442efddb673650a67cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:42 +0000
Subject: [PATCH 24/27] fix: derive non-transferable prefixes from events with
 empty lists

---
 src/prefexing/prefixer.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/prefexing/prefixer.rs b/src/prefexing/prefixer.rs
index 31b5d0d..40cdba5 100644
--- a/src/prefexing/prefixer.rs
+++ b/src/prefexing/prefixer.rs
@@ -87,6 +87,16 @@ fn derive(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     }
 }
 
+/// is there something in a field that may be text or a list
+fn filled(value: &Value) -> bool {
+    match value {
+        Value::String(s) => !s.is_empty(),
+        Value::Array(a) => !a.is_empty(),
+        Value::Object(o) => !o.is_empty(),
+        _ => true,
+    }
+}
+
 fn derive_nontransferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     let ked = ked.clone();
     let map = ked.to_map()?;
@@ -112,17 +122,17 @@ fn derive_nontransferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)>
     }
 
     let label = Ids::n;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && filled(&ked[label]) {
         return err!(Error::Derivation("non-empty nxt for transferable derivation".to_string()));
     }
 
     let label = Ids::b;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && filled(&ked[label]) {
         return err!(Error::Derivation("non-empty 'b' for transferable derivation".to_string()));
     }
 
     let label = Ids::a;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && filled(&ked[label]) {
         return err!(Error::Derivation("non-empty 'a' for transferable derivation".to_string()));
     }
 
-- 
2.43.0


From 45929e9d1f9adf9441af3b3bd61ceafc76b24927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:14 +0000
Subject: [PATCH 25/27] fix: load a message that binary attachments follow

---
 src/cesr/core/common.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cesr/core/common.rs b/src/cesr/core/common.rs
index 30600f1..8294670 100644
--- a/src/cesr/core/common.rs
+++ b/src/cesr/core/common.rs
@@ -291,8 +291,13 @@ pub fn sniff(raw: &[u8]) -> Result<SniffResult> {
         )));
     }
 
-    let raw = &String::from_utf8(raw.to_vec())?;
-    let start = match REVER.shortest_match(raw) {
+    // the version string ends within these bytes, what follows need not be text
+    let head = &raw[..MINIMUM_SNIFF_SIZE];
+    let head = match std::str::from_utf8(head) {
+        Ok(head) => head,
+        Err(e) => std::str::from_utf8(&head[..e.valid_up_to()])?,
+    };
+    let start = match REVER.shortest_match(head) {
         Some(m) => m - VERSION_FULL_SIZE,
         None => return err!(Error::Value(format!("invalid version string in raw = {raw:?}"))),
     };
@@ -303,7 +308,7 @@ pub fn sniff(raw: &[u8]) -> Result<SniffResult> {
         )));
     }
 
-    let vs = &raw[start..(start + VERSION_FULL_SIZE)];
+    let vs = &head[start..(start + VERSION_FULL_SIZE)];
 
     let ident = REVER.replace_all(vs, "$ident").to_string();
     let major = u8::from_str_radix(&REVER.replace_all(vs, "$major"), 16)?;
-- 
2.43.0


From 878b106aa8e1af2803939f98f77f891001e256f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:41 +0000
Subject: [PATCH 26/27] fix: messagize refuses empty lists of signatures

---
 src/messaging.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/messaging.rs b/src/messaging.rs
index 169d18f..59119c6 100644
--- a/src/messaging.rs
+++ b/src/messaging.rs
@@ -21,6 +21,10 @@ fn messagize(
     let message = String::from_utf8(serder.raw())?;
     let mut atc = "".to_string();
 
+    let sigers = sigers.filter(|sigers| !sigers.is_empty());
+    let wigers = wigers.filter(|wigers| !wigers.is_empty());
+    let cigars = cigars.filter(|cigars| !cigars.is_empty());
+
     if sigers.is_none() && wigers.is_none() && cigars.is_none() {
         return err!(Error::Value("missing attached signatures".to_string()));
     }
-- 
2.43.0


From 8acf0e0a1c26b9194a450e6c8fd31543940529f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:00 +0000
Subject: [PATCH 27/27] fix: messagize attaches receipt couples

---
 src/messaging.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/messaging.rs b/src/messaging.rs
index 59119c6..3ec95d9 100644
--- a/src/messaging.rs
+++ b/src/messaging.rs
@@ -3,6 +3,7 @@ use crate::{
         cigar::Cigar,
         counter::{tables as counter, Counter},
         indexer::Indexer,
+        matter::Matter,
         sadder::Sadder,
         serder::Serder,
         siger::Siger,
@@ -64,6 +65,25 @@ fn messagize(
         }
     }
 
+    if let Some(cigars) = cigars {
+        atc += &Counter::new_with_code_and_count(
+            counter::Codex::NonTransReceiptCouples,
+            cigars.len() as u32,
+        )?
+        .qb64()?;
+        for cigar in cigars {
+            let verfer = cigar.verfer();
+            if verfer.transferable() {
+                return err!(Error::Value(format!(
+                    "transferable prefix {} in receipt couple",
+                    verfer.qb64()?
+                )));
+            }
+            atc += &verfer.qb64()?;
+            atc += &(*cigar).qb64()?;
+        }
+    }
+
     // todo: complete this
 
     Ok(message + &atc)
-- 
2.43.0

