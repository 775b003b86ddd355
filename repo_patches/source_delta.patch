From f596a9f0aaeaa0d74e1407de6184f60bb2b2f630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:30 +0000
Subject: [PATCH 01/19] fix: reject truncated, oversized and indefinite BER
 headers instead of panicking

---
 src/ber/header.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/ber/header.rs b/src/ber/header.rs
index e5af25f..0b37247 100755
--- a/src/ber/header.rs
+++ b/src/ber/header.rs
@@ -67,34 +67,48 @@ impl BerHeader {
         let tag = match id_octets & 0x1f {
             0x1f => {
                 // > 30
-                let mut n = 0 as Tag;
+                let mut n = 0usize;
                 loop {
-                    // @todo: check size
-                    let t = i[current];
+                    let t = *i.get(current).ok_or(Err::Incomplete(Needed::Unknown))?;
                     current += 1;
-                    n = (n << 7) | ((t & 0x7f) as Tag);
+                    n = (n << 7) | ((t & 0x7f) as usize);
+                    if n > Tag::MAX as usize {
+                        return Err(Err::Failure(SnmpError::InvalidTagFormat));
+                    }
                     if t & 0x80 == 0 {
                         break;
                     }
                 }
-                n
+                if n < 0x1f {
+                    // X.690 8.1.2.2: Must be encoded as a single octet
+                    return Err(Err::Failure(SnmpError::InvalidTagFormat));
+                }
+                n as Tag
             }
             n => n as Tag,
         };
         // Parse length offset
         // X.690 8.3.1.4-8.3.1.5
-        // @todo: Indefinite length
-        let n = i[current];
+        let n = *i.get(current).ok_or(Err::Incomplete(Needed::Unknown))?;
         current += 1;
         let length = if n & 0x80 == 0 {
             // Short form, X.690 pp 8.3.1.4
             n as usize
+        } else if n == 0x80 || n == 0xff {
+            // Indefinite form, X.690 pp 8.1.3.6, is not supported.
+            // 0xff is reserved, X.690 pp 8.1.3.5
+            return Err(Err::Failure(SnmpError::InvalidTagFormat));
         } else {
             // Long form, X.690 pp 8.1.3.5
-            let mut ln = 0;
+            let mut ln = 0usize;
             for _ in 0..n & 0x7f {
-                ln = (ln << 8) + (i[current] as usize);
+                let v = *i.get(current).ok_or(Err::Incomplete(Needed::Unknown))?;
                 current += 1;
+                if ln > usize::MAX >> 8 {
+                    // Cannot fit any buffer
+                    return Err(Err::Incomplete(Needed::Unknown));
+                }
+                ln = (ln << 8) | (v as usize);
             }
             ln
         };
-- 
2.43.0


From 31cfd1b1a58eee092061156f85026367ae74cfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:08 +0000
Subject: [PATCH 02/19] fix: encode and decode the full range of 64-bit
 INTEGERs as two's complement

---
 src/ber/int.rs | 96 ++++++++++++++------------------------------------
 1 file changed, 27 insertions(+), 69 deletions(-)

diff --git a/src/ber/int.rs b/src/ber/int.rs
index aa0c4ab..28f7cd3 100755
--- a/src/ber/int.rs
+++ b/src/ber/int.rs
@@ -9,7 +9,9 @@ use super::{BerDecoder, BerEncoder, BerHeader, TAG_INT, Tag};
 use crate::buf::Buffer;
 use crate::error::{SnmpError, SnmpResult};
 use pyo3::{Bound, IntoPyObject, PyAny, Python};
-use std::cmp::Ordering;
+
+// Octets in i64
+const MAX_OCTETS: usize = 8;
 
 pub struct SnmpInt(i64);
 
@@ -23,81 +25,37 @@ impl<'a> BerDecoder<'a> for SnmpInt {
         if h.is_empty() {
             return Ok(SnmpInt(0));
         }
-        let v = i
-            .iter()
-            .take(h.length)
-            .map(|x| *x as i64)
-            .reduce(|acc, x| (acc << 8) | x)
-            .unwrap_or(0);
-        Ok(SnmpInt(if i[0] & 0x80 == 0 {
-            v
-        } else {
-            // Negative number
-            let m = 1 << (8 * h.length);
-            v - m
-        }))
+        if h.length > MAX_OCTETS {
+            // Doesn't fit i64
+            return Err(SnmpError::InvalidData);
+        }
+        // X.690 pp 8.3.3: two's complement, sign is extended from the first octet
+        let sign = if i[0] & 0x80 == 0 { 0 } else { -1 };
+        Ok(SnmpInt(
+            i[..h.length]
+                .iter()
+                .fold(sign, |acc, x| (acc << 8) | (*x as i64)),
+        ))
     }
 }
 
-const ZERO_BER: [u8; 3] = [TAG_INT, 1, 0];
-
 impl BerEncoder for SnmpInt {
+    // X.690 pp 8.3.2: smallest possible number of octets, two's complement.
     fn push_ber(&self, buf: &mut Buffer) -> SnmpResult<()> {
-        match self.0.cmp(&0) {
-            Ordering::Equal => buf.push(&ZERO_BER),
-            Ordering::Greater => {
-                let start = buf.len();
-                // Write body
-                let mut left = self.0;
-                loop {
-                    buf.push_u8((left & 0xff) as u8)?;
-                    if left < 0xff {
-                        if left & 0x80 == 0x80 {
-                            // Highest bit is 1
-                            // push leading zero
-                            buf.push_u8(0)?;
-                        }
-                        break;
-                    }
-                    left >>= 8;
-                }
-                // Write length
-                buf.push_tag_len(TAG_INT, buf.len() - start)
-            }
-            Ordering::Less => {
-                let start = buf.len();
-                let mut left = -self.0;
-                // Calculate used octets
-                let mut ln = 0;
-                while left > 0 {
-                    ln += 1;
-                    left >>= 8;
-                }
-                // Calculate complement
-                let d = 1 << (ln * 8 - 1);
-                left = -self.0;
-                let comp = if d < left { d << 8 } else { d };
-                // Write octets
-                if comp == left {
-                    for _ in 0..ln - 1 {
-                        buf.push_u8(0)?;
-                    }
-                    buf.push_u8(0x80)?;
-                } else {
-                    left = comp - left;
-                    loop {
-                        if left < 0xff {
-                            buf.push_u8(0x80 | (left as u8))?;
-                            break;
-                        }
-                        buf.push_u8((left & 0xff) as u8)?;
-                        left >>= 8;
-                    }
-                }
-                // Write tag and length
-                buf.push_tag_len(TAG_INT, buf.len() - start)
+        let start = buf.len();
+        // Write body, less significant octets first
+        let mut left = self.0;
+        loop {
+            let octet = left as u8;
+            buf.push_u8(octet)?;
+            left >>= 8;
+            // Stop when the rest is only the extension of the sign bit
+            if (left == 0 && octet & 0x80 == 0) || (left == -1 && octet & 0x80 != 0) {
+                break;
             }
         }
+        // Write tag and length
+        buf.push_tag_len(TAG_INT, buf.len() - start)
     }
 }
 
-- 
2.43.0


From a58a4085967f9c1b4d21ce05826686ca8d4730a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:31 +0000
Subject: [PATCH 03/19] fix: do not alias protocol versions, skip Reports in
 SNMPv1/v2c sessions

---
 src/ber/int.rs    | 3 ++-
 src/socket/v1.rs  | 4 ++++
 src/socket/v2c.rs | 4 ++++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ber/int.rs b/src/ber/int.rs
index 28f7cd3..31e7b4c 100755
--- a/src/ber/int.rs
+++ b/src/ber/int.rs
@@ -67,7 +67,8 @@ impl From<i64> for SnmpInt {
 
 impl From<SnmpInt> for u8 {
     fn from(value: SnmpInt) -> Self {
-        value.0 as u8
+        // Out of range values must not alias the valid ones
+        u8::try_from(value.0).unwrap_or(u8::MAX)
     }
 }
 
diff --git a/src/socket/v1.rs b/src/socket/v1.rs
index 10b11ad..7b08dff 100755
--- a/src/socket/v1.rs
+++ b/src/socket/v1.rs
@@ -140,6 +140,10 @@ impl SnmpSocket for SnmpV1ClientSocket {
         if !pdu.check(&self.request_id) {
             return None;
         }
+        // Reports are meaningful in SNMPv3 only
+        if let SnmpPdu::Report(_) = pdu {
+            return None;
+        }
         Some(pdu)
     }
 }
diff --git a/src/socket/v2c.rs b/src/socket/v2c.rs
index 45426ca..ec87ed4 100644
--- a/src/socket/v2c.rs
+++ b/src/socket/v2c.rs
@@ -139,6 +139,10 @@ impl SnmpSocket for SnmpV2cClientSocket {
         if !pdu.check(&self.request_id) {
             return None;
         }
+        // Reports are meaningful in SNMPv3 only
+        if let SnmpPdu::Report(_) = pdu {
+            return None;
+        }
         Some(pdu)
     }
 }
-- 
2.43.0


From ee81a31b99e892cb2a78aa969f8f760333c4f608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:18 +0000
Subject: [PATCH 04/19] fix: do not panic on malformed varbinds, relative OIDs,
 privacy parameters and exception values

---
 src/ber/relative_oid.rs | 9 ++++++++-
 src/privacy/aes128.rs   | 4 ++++
 src/privacy/des.rs      | 3 +++
 src/snmp/getresponse.rs | 9 +++++++--
 src/snmp/op/getmany.rs  | 9 ++++++---
 src/snmp/op/getnext.rs  | 7 ++++---
 src/snmp/value.rs       | 9 +++++----
 7 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/src/ber/relative_oid.rs b/src/ber/relative_oid.rs
index f6778dd..6a0820a 100755
--- a/src/ber/relative_oid.rs
+++ b/src/ber/relative_oid.rs
@@ -24,8 +24,12 @@ impl<'a> BerDecoder<'a> for SnmpRelativeOid<'a> {
 
 impl SnmpRelativeOid<'_> {
     /// Apply relative oid to absolute one
-    /// and return normalized absolute oid
+    /// and return normalized absolute oid.
+    /// Returns empty oid when the relative oid cannot be applied.
     pub fn normalize<'a>(&self, oid: &SnmpOid) -> SnmpOid<'a> {
+        if oid.0.is_empty() {
+            return SnmpOid::from(Vec::new());
+        }
         // Number of subelements
         let rel_si = SnmpRelativeOid::subelements(self.0);
         // Number of subelements in base. First octet holds 2 subidentifiers.
@@ -42,6 +46,9 @@ impl SnmpRelativeOid<'_> {
         } else {
             // Replace fully
             // First value is collapsed to one
+            if self.0.len() < 2 || self.0[0] > 2 || self.0[1] > 39 {
+                return SnmpOid::from(Vec::new());
+            }
             let mut r = Vec::with_capacity(self.0.len() - 1);
             // Collapse first two values into one octet
             r.push(self.0[0] * 40 + self.0[1]);
diff --git a/src/privacy/aes128.rs b/src/privacy/aes128.rs
index 80d9fb4..eb35738 100644
--- a/src/privacy/aes128.rs
+++ b/src/privacy/aes128.rs
@@ -16,6 +16,7 @@ use cipher::{AsyncStreamCipher, BlockEncryptMut, KeyIvInit, block_padding::NoPad
 use rand::Rng;
 
 const KEY_LENGTH: usize = 16;
+const SALT_LENGTH: usize = 8;
 const BLOCK_SIZE: usize = 16;
 const PADDING: [u8; BLOCK_SIZE] = [0; BLOCK_SIZE];
 
@@ -82,6 +83,9 @@ impl SnmpPriv for Aes128Key {
         data: &'b [u8],
         usm: &'b UsmParameters<'b>,
     ) -> SnmpResult<ScopedPdu<'c>> {
+        if usm.privacy_params.len() != SALT_LENGTH {
+            return Err(SnmpError::InvalidData);
+        }
         // Get IV
         let mut iv = [0u8; 16];
         iv[..4].clone_from_slice(&(usm.engine_boots as u32).to_be_bytes());
diff --git a/src/privacy/des.rs b/src/privacy/des.rs
index f9b7cf0..7af1571 100644
--- a/src/privacy/des.rs
+++ b/src/privacy/des.rs
@@ -90,6 +90,9 @@ impl SnmpPriv for DesKey {
         data: &'b [u8],
         usm: &'b UsmParameters<'b>,
     ) -> SnmpResult<ScopedPdu<'c>> {
+        if usm.privacy_params.len() != SALT_SIZE {
+            return Err(SnmpError::InvalidData);
+        }
         // Get IV
         let mut iv = [0u8; 8];
         for (idx, (x, y)) in usm
diff --git a/src/snmp/getresponse.rs b/src/snmp/getresponse.rs
index 7459c2d..0d97f18 100755
--- a/src/snmp/getresponse.rs
+++ b/src/snmp/getresponse.rs
@@ -46,7 +46,8 @@ impl<'a> TryFrom<&'a [u8]> for SnmpGetResponse<'a> {
             // Parse enclosing sequence
             let (rest, vs) = SnmpSequence::from_ber(v_tail)?;
             // Parse oid. May be either absolute or relative
-            let (tail, oid) = match vs.0[0] as Tag {
+            let oid_tag: Tag = *vs.0.first().ok_or(SnmpError::Incomplete)?;
+            let (tail, oid) = match oid_tag {
                 TAG_OBJECT_ID => SnmpOid::from_ber(vs.0)?,
                 TAG_RELATIVE_OID => {
                     if vars.is_empty() {
@@ -55,8 +56,12 @@ impl<'a> TryFrom<&'a [u8]> for SnmpGetResponse<'a> {
                     }
                     // Parse relative oid
                     let (t, r_oid) = SnmpRelativeOid::from_ber(vs.0)?;
-                    let oid = r_oid.normalize(&vars[vars.len() - 1].oid);
                     // Apply relative oid
+                    let oid = r_oid.normalize(&vars[vars.len() - 1].oid);
+                    if oid.0.is_empty() {
+                        // Cannot be applied
+                        return Err(SnmpError::InvalidData);
+                    }
                     (t, oid)
                 }
                 _ => return Err(SnmpError::UnexpectedTag),
diff --git a/src/snmp/op/getmany.rs b/src/snmp/op/getmany.rs
index a00dbe2..904edec 100644
--- a/src/snmp/op/getmany.rs
+++ b/src/snmp/op/getmany.rs
@@ -39,9 +39,12 @@ impl<'a> PyOp<'a, Vec<PyBackedStr>> for OpGetMany {
                         | SnmpValue::NoSuchObject
                         | SnmpValue::NoSuchInstance
                         | SnmpValue::EndOfMibView => continue,
-                        _ => dict
-                            .set_item(&var.oid, &var.value)
-                            .map_err(|e| PyRuntimeError::new_err(e.to_string()))?,
+                        _ => {
+                            let oid = var.oid.into_pyobject(py)?;
+                            let value = var.value.into_pyobject(py)?;
+                            dict.set_item(oid, value)
+                                .map_err(|e| PyRuntimeError::new_err(e.to_string()))?
+                        }
                     }
                 }
                 Ok(dict.as_any().to_owned())
diff --git a/src/snmp/op/getnext.rs b/src/snmp/op/getnext.rs
index 992f55a..8da8262 100644
--- a/src/snmp/op/getnext.rs
+++ b/src/snmp/op/getnext.rs
@@ -47,9 +47,10 @@ impl<'a> PyOp<'a, SnmpOid<'a>> for OpGetNext {
                         }
                         // v1 may return Null at end of mib
                         match &var.value {
-                            SnmpValue::EndOfMibView | SnmpValue::Null => {
-                                Err(PyStopAsyncIteration::new_err("stop"))
-                            }
+                            SnmpValue::EndOfMibView
+                            | SnmpValue::NoSuchObject
+                            | SnmpValue::NoSuchInstance
+                            | SnmpValue::Null => Err(PyStopAsyncIteration::new_err("stop")),
                             value => Ok(PyTuple::new(
                                 py,
                                 vec![var.oid.into_pyobject(py)?, value.into_pyobject(py)?],
diff --git a/src/snmp/value.rs b/src/snmp/value.rs
index f8c1df3..6e5e8f3 100755
--- a/src/snmp/value.rs
+++ b/src/snmp/value.rs
@@ -15,7 +15,7 @@ use crate::ber::{
 };
 use crate::error::SnmpError;
 use nom::{Err, IResult};
-use pyo3::{Bound, IntoPyObject, PyAny, Python};
+use pyo3::{Bound, IntoPyObject, PyAny, Python, types::PyNone};
 
 pub enum SnmpValue<'a> {
     Bool(SnmpBool),
@@ -129,7 +129,7 @@ impl<'py> IntoPyObject<'py> for &SnmpValue<'_> {
         Ok(match self {
             SnmpValue::Bool(x) => x.into_pyobject(py)?,
             SnmpValue::Int(x) => x.into_pyobject(py)?,
-            SnmpValue::Null => todo!("None"),
+            SnmpValue::Null => PyNone::get(py).to_owned().into_any(),
             SnmpValue::OctetString(x) => x.into_pyobject(py)?,
             SnmpValue::Oid(x) => x.into_pyobject(py)?,
             SnmpValue::ObjectDescriptor(x) => x.into_pyobject(py)?,
@@ -141,8 +141,9 @@ impl<'py> IntoPyObject<'py> for &SnmpValue<'_> {
             SnmpValue::Opaque(x) => x.into_pyobject(py)?,
             SnmpValue::Counter64(x) => x.into_pyobject(py)?,
             SnmpValue::UInteger32(x) => x.into_pyobject(py)?,
-            SnmpValue::NoSuchObject | SnmpValue::NoSuchInstance => todo!("never should be passed"),
-            SnmpValue::EndOfMibView => todo!("never should be passed"),
+            SnmpValue::NoSuchObject | SnmpValue::NoSuchInstance | SnmpValue::EndOfMibView => {
+                return Err(SnmpError::NoSuchInstance);
+            }
         })
     }
 }
-- 
2.43.0


From a62fff1858cfd4b7c59891d923e1faecb48d68c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:27 +0000
Subject: [PATCH 05/19] fix: decode REAL within its declared extent in all
 binary and decimal forms

---
 src/ber/real.rs   | 120 ++++++++++++++++++++++++++++++++--------------
 src/snmp/value.rs |   2 +-
 2 files changed, 84 insertions(+), 38 deletions(-)

diff --git a/src/ber/real.rs b/src/ber/real.rs
index c81fb5b..0dbf7a3 100755
--- a/src/ber/real.rs
+++ b/src/ber/real.rs
@@ -10,6 +10,9 @@ use crate::error::{SnmpError, SnmpResult};
 use core::str::from_utf8;
 use pyo3::{Bound, IntoPyObject, PyAny, Python};
 
+// Limit of exponent
+const MAX_EXPONENT: i64 = 1 << 32;
+
 pub struct SnmpReal(f64);
 
 impl<'a> BerDecoder<'a> for SnmpReal {
@@ -25,6 +28,7 @@ impl<'a> BerDecoder<'a> for SnmpReal {
         if h.is_empty() {
             return Ok(SnmpReal(0.0));
         }
+        let i = &i[..h.length];
         // 8.5.6: Check encoding
         Ok(SnmpReal(match i[0] {
             f if f & 0x80 == 0x80 => {
@@ -41,17 +45,19 @@ impl<'a> BerDecoder<'a> for SnmpReal {
 
                 // 8.5.7.4 Bits 2 to 1 of the first contents octet
                 // shall encode the format of the exponent as follows:
-                let ln = (f & 0x03) as usize + 2;
-                let e = SnmpReal::parse_u32(&i[1..ln]) as i32;
-                let mut v: f64 = SnmpReal::parse_u32(&i[ln..]).into();
-                // 8.5.7.3: Bits 4 to 3 of the first contents octet shall
-                // encode the value of the binary scaling factor F
-                // as an unsigned binary integer.
-                match (f & 0x0c) >> 2 {
-                    1 => v *= 2.0,
-                    2 => v *= 4.0,
-                    3 => v *= 8.0,
-                    _ => return Err(SnmpError::InvalidData),
+                // 00, 01, 10 => the exponent is in the next 1, 2 or 3 octets
+                // 11 => the next octet is the number of octets of the exponent
+                let (start, ln) = match f & 0x03 {
+                    3 => (2, *i.get(1).ok_or(SnmpError::Incomplete)? as usize),
+                    n => (1, n as usize + 1),
+                };
+                if ln == 0 {
+                    return Err(SnmpError::InvalidData);
+                }
+                let exp = i.get(start..start + ln).ok_or(SnmpError::Incomplete)?;
+                let mantissa = &i[start + ln..];
+                if mantissa.is_empty() {
+                    return Err(SnmpError::Incomplete);
                 }
                 // 8.5.7.2: Bits 6 to 5 of the first contents octets
                 // shall encode the value of the base B' as follows:
@@ -60,19 +66,23 @@ impl<'a> BerDecoder<'a> for SnmpReal {
                 // 01 => base 8
                 // 10 => base 16
                 // 11 => Reserved for further editions of this Recommendation | International Standard.
-                let base: f64 = match f & 0x30 {
-                    0 => 2.0,
-                    0x10 => 8.0,
-                    0x20 => 16.0,
+                let base_log = match f & 0x30 {
+                    0 => 1,
+                    0x10 => 3,
+                    0x20 => 4,
                     _ => return Err(SnmpError::InvalidData),
                 };
-                v *= base.powi(e);
+                // 8.5.7.3: Bits 4 to 3 of the first contents octet shall
+                // encode the value of the binary scaling factor F
+                // as an unsigned binary integer.
+                let scale = ((f & 0x0c) >> 2) as i64;
+                let v = SnmpReal::scale(
+                    mantissa,
+                    SnmpReal::parse_exponent(exp) * base_log + scale,
+                );
                 // 8.5.7.1: Bit 7 of the first contents octets
                 // shall be 1 if S is –1 and 0 otherwise.
-                if f & 0x40 == 0x40 {
-                    v = -v
-                }
-                v
+                if f & 0x40 == 0x40 { -v } else { v }
             }
             f if f & 0xc0 == 0 => {
                 // 8.5.8: Decimal encoding
@@ -84,21 +94,11 @@ impl<'a> BerDecoder<'a> for SnmpReal {
                 // by bits 6 to 1 of the first contents octet as follows:
                 match f & 0x3f {
                     // ISO 6093 NR1: i.e. 456
-                    1 => {
-                        let s = from_utf8(&i[1..]).map_err(|_| SnmpError::InvalidData)?;
-                        let v = s.parse::<i32>().map_err(|_| SnmpError::InvalidData)?;
-                        v.into()
-                    }
+                    1 => SnmpReal::parse_decimal(&i[1..], b"+-")?,
                     // ISO 6093 NR2: i.e. 456.7
-                    2 => {
-                        let s = from_utf8(&i[1..]).map_err(|_| SnmpError::InvalidData)?;
-                        s.parse::<f64>().map_err(|_| SnmpError::InvalidData)?
-                    }
+                    2 => SnmpReal::parse_decimal(&i[1..], b"+-.,")?,
                     // ISO 6093 NR3: i.e. 4567e-1
-                    3 => {
-                        let s = from_utf8(&i[1..]).map_err(|_| SnmpError::InvalidData)?;
-                        s.parse::<f64>().map_err(|_| SnmpError::InvalidData)?
-                    }
+                    3 => SnmpReal::parse_decimal(&i[1..], b"+-.,Ee")?,
                     _ => return Err(SnmpError::InvalidData),
                 }
             }
@@ -112,10 +112,56 @@ impl<'a> BerDecoder<'a> for SnmpReal {
 }
 
 impl SnmpReal {
-    fn parse_u32(i: &[u8]) -> u32 {
-        let mut v = 0u32;
-        for &n in i.iter() {
-            v = (v << 8) | (n as u32);
+    // ISO 6093 field: leading spaces, then digits and marks.
+    // Both the full stop and the comma may be used as the decimal mark.
+    fn parse_decimal(i: &[u8], marks: &[u8]) -> SnmpResult<f64> {
+        let s = from_utf8(i)
+            .map_err(|_| SnmpError::InvalidData)?
+            .trim_start_matches(' ');
+        if !s.bytes().all(|c| c.is_ascii_digit() || marks.contains(&c)) {
+            return Err(SnmpError::InvalidData);
+        }
+        s.replace(',', ".")
+            .parse::<f64>()
+            .map_err(|_| SnmpError::InvalidData)
+    }
+    // Two's complement exponent. Limited to the range,
+    // which is far beyond of any f64 for any possible mantissa.
+    fn parse_exponent(i: &[u8]) -> i64 {
+        let sign = if i[0] & 0x80 == 0 { 0 } else { -1i64 };
+        i.iter().fold(sign, |acc, &x| {
+            ((acc << 8) | (x as i64)).clamp(-MAX_EXPONENT, MAX_EXPONENT)
+        })
+    }
+    // Calculate mantissa * 2^exponent
+    fn scale(mantissa: &[u8], exponent: i64) -> f64 {
+        // Use up to 16 most significant octets
+        let skip = mantissa.iter().take_while(|&&x| x == 0).count();
+        let mantissa = &mantissa[skip..];
+        let ln = mantissa.len().min(16);
+        let mut n = mantissa[..ln]
+            .iter()
+            .fold(0u128, |acc, &x| (acc << 8) | (x as u128));
+        if n == 0 {
+            return 0.0;
+        }
+        // Remaining octets affects only the rounding
+        let rest = &mantissa[ln..];
+        let mut e = exponent + 8 * rest.len() as i64;
+        if rest.iter().any(|&x| x != 0) {
+            n |= 1;
+        }
+        // Strip trailing zero bits, so every representable value is scaled exactly
+        let tz = n.trailing_zeros();
+        n >>= tz;
+        e += tz as i64;
+        // n < 2^128, so any exponent out of limits leads to the overflow or underflow.
+        let mut e = e.clamp(-1300, 1300) as i32;
+        let mut v = n as f64;
+        while e != 0 {
+            let step = e.clamp(-1000, 1000);
+            v *= 2f64.powi(step);
+            e -= step;
         }
         v
     }
diff --git a/src/snmp/value.rs b/src/snmp/value.rs
index 6e5e8f3..5903557 100755
--- a/src/snmp/value.rs
+++ b/src/snmp/value.rs
@@ -59,7 +59,7 @@ impl SnmpValue<'_> {
                     TAG_OBJECT_DESCRIPTOR => {
                         SnmpValue::ObjectDescriptor(SnmpObjectDescriptor::decode(tail, &hdr)?)
                     }
-                    TAG_REAL => SnmpValue::Real(SnmpReal::decode(i, &hdr)?),
+                    TAG_REAL => SnmpValue::Real(SnmpReal::decode(tail, &hdr)?),
                     //
                     _ => {
                         return Err(Err::Failure(SnmpError::UnsupportedTag(format!(
-- 
2.43.0


From 6556ce287b1956187082c649a48462502d47c0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:48 +0000
Subject: [PATCH 06/19] fix: refuse OIDs which cannot be represented instead of
 clamping them

---
 src/ber/objectid.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/ber/objectid.rs b/src/ber/objectid.rs
index b8c543b..402dbe0 100755
--- a/src/ber/objectid.rs
+++ b/src/ber/objectid.rs
@@ -92,6 +92,10 @@ impl SnmpOid<'_> {
     }
 }
 
+// Limits of the first two subelements, which share one octet
+const MAX_FIRST: u32 = 2;
+const MAX_SECOND: u32 = 39;
+
 struct OidSubelementIterator<'a>(core::str::Split<'a, &'a str>);
 
 impl<'a> OidSubelementIterator<'a> {
@@ -106,7 +110,13 @@ impl Iterator for OidSubelementIterator<'_> {
     fn next(&mut self) -> Option<Self::Item> {
         self.0
             .next()
-            .map(|part| part.parse::<u32>().map_err(|_| SnmpError::InvalidData))
+            .map(|part| {
+                // `parse` accepts the leading plus sign
+                if part.starts_with('+') {
+                    return Err(SnmpError::InvalidData);
+                }
+                part.parse::<u32>().map_err(|_| SnmpError::InvalidData)
+            })
     }
 }
 
@@ -123,9 +133,12 @@ impl TryFrom<&str> for SnmpOid<'_> {
         // Subelements iterator
         let mut iter = OidSubelementIterator::new(value);
         // Get first two subelements
-        let first = iter.next().ok_or(SnmpError::InvalidData)??.min(6) as u8;
-        let second = iter.next().ok_or(SnmpError::InvalidData)??.min(39) as u8;
-        vec.push(40 * first + second);
+        let first = iter.next().ok_or(SnmpError::InvalidData)??;
+        let second = iter.next().ok_or(SnmpError::InvalidData)??;
+        if first > MAX_FIRST || second > MAX_SECOND {
+            return Err(SnmpError::InvalidData);
+        }
+        vec.push((40 * first + second) as u8);
         // Push other elements
         for sr in iter {
             let sub_id = sr?;
-- 
2.43.0


From 0ea0ee1a0a1b771f01244846788720de5aad1015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:29 +0000
Subject: [PATCH 07/19] fix: reject received OIDs with oversized or incomplete
 arcs instead of rendering other OIDs

---
 src/ber/objectid.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ber/objectid.rs b/src/ber/objectid.rs
index 402dbe0..5d18a2d 100755
--- a/src/ber/objectid.rs
+++ b/src/ber/objectid.rs
@@ -73,13 +73,23 @@ impl TryFrom<&SnmpOid<'_>> for String {
         let first = iter.next().ok_or(SnmpError::InvalidData)?;
         write!(r, "{}.{}", first / 40, first % 40).map_err(|_| SnmpError::InvalidData)?;
         let mut b = 0u32;
+        let mut complete = true;
         for c in iter {
+            if b > u32::MAX >> 7 {
+                // Arc exceeds 2^32-1
+                return Err(SnmpError::InvalidData);
+            }
             b = (b << 7) + ((*c as u32) & 0x7f);
-            if c & 0x80 == 0 {
+            complete = c & 0x80 == 0;
+            if complete {
                 write!(r, ".{}", b).map_err(|_| SnmpError::InvalidData)?;
                 b = 0;
             }
         }
+        if !complete {
+            // Last arc is cut
+            return Err(SnmpError::InvalidData);
+        }
         Ok(r)
     }
 }
-- 
2.43.0


From 9d5d8b35b69ba152aa1da97edd966cb87157920b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:51 +0000
Subject: [PATCH 08/19] fix: stop the walk when the agent returns
 non-increasing OID

---
 src/ber/objectid.rs    | 13 +++++++++++++
 src/snmp/op/getiter.rs |  7 +++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/ber/objectid.rs b/src/ber/objectid.rs
index 5d18a2d..023de25 100755
--- a/src/ber/objectid.rs
+++ b/src/ber/objectid.rs
@@ -100,6 +100,19 @@ impl SnmpOid<'_> {
     pub fn starts_with(&self, oid: &SnmpOid) -> bool {
         oid.0.starts_with(&self.0)
     }
+    // Check if oid lexicographically follows the other one.
+    // Compared arc by arc, as the order of encoded octets differs
+    // for the arcs of the different length.
+    pub fn is_after(&self, oid: &SnmpOid) -> bool {
+        Self::arcs(&self.0).gt(Self::arcs(&oid.0))
+    }
+    fn arcs(data: &[u8]) -> impl Iterator<Item = u64> + '_ {
+        data.split_inclusive(|c| c & 0x80 == 0).map(|arc| {
+            arc.iter().fold(0u64, |acc, c| {
+                (acc.min(u64::MAX >> 7) << 7) | ((c & 0x7f) as u64)
+            })
+        })
+    }
 }
 
 // Limits of the first two subelements, which share one octet
diff --git a/src/snmp/op/getiter.rs b/src/snmp/op/getiter.rs
index 55e1be7..cac20a9 100644
--- a/src/snmp/op/getiter.rs
+++ b/src/snmp/op/getiter.rs
@@ -35,9 +35,12 @@ impl GetIter {
         self.next_oid.as_owned()
     }
     // Save oid for next request.
-    // Return true if next request may be send or return false otherwise
+    // Return true if next request may be send or return false otherwise:
+    // when oid leaves the subtree or doesn't follow the previous one.
     pub fn set_next_oid(&mut self, oid: &SnmpOid) -> bool {
-        if self.start_oid.as_borrowed().starts_with(oid) {
+        if self.start_oid.as_borrowed().starts_with(oid)
+            && oid.is_after(&self.next_oid.as_borrowed())
+        {
             self.next_oid.store(oid);
             true
         } else {
-- 
2.43.0


From d4a8e03b753d2986df9d85e976c96352310e79da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:40 +0000
Subject: [PATCH 09/19] fix: verify authentication and privacy of SNMPv3
 responses

---
 src/auth/digest.rs       |  9 +++++++++
 src/auth/mod.rs          |  2 ++
 src/auth/noauth.rs       |  3 +++
 src/socket/snmpsocket.rs |  9 +++++----
 src/socket/v1.rs         |  2 +-
 src/socket/v2c.rs        |  2 +-
 src/socket/v3.rs         | 28 +++++++++++++++++++++++++++-
 7 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/src/auth/digest.rs b/src/auth/digest.rs
index 2f0ebe0..1ca1260 100644
--- a/src/auth/digest.rs
+++ b/src/auth/digest.rs
@@ -122,4 +122,13 @@ impl<D: Digest, const KS: usize, const SS: usize> SnmpAuth for DigestAuth<D, KS,
         data[offset..offset + SS].copy_from_slice(&d2[0..SS]);
         Ok(())
     }
+    fn verify(&self, data: &[u8], offset: usize) -> bool {
+        // RFC-3414, pp. 6.3.2. Processing an incoming message
+        let Some(received) = data.get(offset..offset + SS) else {
+            return false;
+        };
+        let mut msg = data.to_vec();
+        msg[offset..offset + SS].fill(0);
+        self.sign(&mut msg, offset).is_ok() && msg[offset..offset + SS] == *received
+    }
 }
diff --git a/src/auth/mod.rs b/src/auth/mod.rs
index 19de9bd..18c0db9 100644
--- a/src/auth/mod.rs
+++ b/src/auth/mod.rs
@@ -51,6 +51,8 @@ pub trait SnmpAuth {
     fn placeholder(&self) -> &'static [u8];
     // Sign data in buffer
     fn sign(&self, data: &mut [u8], offset: usize) -> SnmpResult<()>;
+    // Check the signature placed at the offset of the whole message
+    fn verify(&self, data: &[u8], offset: usize) -> bool;
 }
 
 // - - X X    X X X X
diff --git a/src/auth/noauth.rs b/src/auth/noauth.rs
index f02f980..19a40b0 100644
--- a/src/auth/noauth.rs
+++ b/src/auth/noauth.rs
@@ -34,4 +34,7 @@ impl SnmpAuth for NoAuth {
     fn sign(&self, _data: &mut [u8], _offset: usize) -> SnmpResult<()> {
         Ok(())
     }
+    fn verify(&self, _data: &[u8], _offset: usize) -> bool {
+        true
+    }
 }
diff --git a/src/socket/snmpsocket.rs b/src/socket/snmpsocket.rs
index f552081..ed4f85e 100644
--- a/src/socket/snmpsocket.rs
+++ b/src/socket/snmpsocket.rs
@@ -97,7 +97,8 @@ where
     }
     fn get_request_id(&mut self) -> &mut RequestId;
     fn push_pdu(&mut self, pdu: SnmpPdu, buf: &mut Buffer) -> SnmpResult<()>;
-    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>) -> Option<SnmpPdu<'a>>;
+    // Check the message and extract PDU. `raw` is the whole datagram
+    fn unwrap_pdu<'a>(&'a mut self, raw: &[u8], msg: Self::Message<'a>) -> Option<SnmpPdu<'a>>;
     //
     fn recv_socket<'a>(io: &mut Socket, buf: &'a mut Buffer) -> SnmpResult<&'a [u8]> {
         match io.recv(buf.as_mut()) {
@@ -133,13 +134,13 @@ where
         // We can catch unwanted replies, so do it in a loop
         loop {
             // Nested scope to release io early after receiving message
-            let msg = {
+            let (data, msg) = {
                 let io = self.get_io();
                 let data = Self::recv_socket(io, buf)?;
                 // Decode message
-                Self::Message::try_from(data)?
+                (data, Self::Message::try_from(data)?)
             };
-            match self.unwrap_pdu(msg) {
+            match self.unwrap_pdu(data, msg) {
                 Some(ref pdu) => {
                     return Python::with_gil(|py| Ok(T::to_python(pdu, iter, py)?.into()));
                 }
diff --git a/src/socket/v1.rs b/src/socket/v1.rs
index 7b08dff..7a73ad8 100755
--- a/src/socket/v1.rs
+++ b/src/socket/v1.rs
@@ -130,7 +130,7 @@ impl SnmpSocket for SnmpV1ClientSocket {
         msg.push_ber(buf)
     }
 
-    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>) -> Option<SnmpPdu<'a>> {
+    fn unwrap_pdu<'a>(&'a mut self, _raw: &[u8], msg: Self::Message<'a>) -> Option<SnmpPdu<'a>> {
         // Check communnity
         if msg.community != self.community.as_bytes() {
             return None;
diff --git a/src/socket/v2c.rs b/src/socket/v2c.rs
index ec87ed4..2d87d97 100644
--- a/src/socket/v2c.rs
+++ b/src/socket/v2c.rs
@@ -129,7 +129,7 @@ impl SnmpSocket for SnmpV2cClientSocket {
         msg.push_ber(buf)
     }
 
-    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>) -> Option<SnmpPdu<'a>> {
+    fn unwrap_pdu<'a>(&'a mut self, _raw: &[u8], msg: Self::Message<'a>) -> Option<SnmpPdu<'a>> {
         // Check communnity
         if msg.community != self.community.as_bytes() {
             return None;
diff --git a/src/socket/v3.rs b/src/socket/v3.rs
index 4d8519c..2b495d0 100644
--- a/src/socket/v3.rs
+++ b/src/socket/v3.rs
@@ -188,6 +188,26 @@ impl SnmpV3ClientSocket {
     }
 }
 
+impl SnmpV3ClientSocket {
+    // Check message is authentic, according to RFC-3414, pp. 3.2.6
+    fn is_authentic(&self, raw: &[u8], msg: &SnmpV3Message) -> bool {
+        if !self.auth_key.has_auth() {
+            return true;
+        }
+        let params = msg.usm.auth_params;
+        if !msg.flag_auth || params.len() != self.auth_key.placeholder().len() {
+            return false;
+        }
+        // Parameters are borrowed from the raw message
+        let offset = (params.as_ptr() as usize).wrapping_sub(raw.as_ptr() as usize);
+        offset < raw.len() && self.auth_key.verify(raw, offset)
+    }
+    // Check message is encrypted, if the privacy is configured
+    fn is_private(&self, msg: &SnmpV3Message) -> bool {
+        !self.priv_key.has_priv() || (msg.flag_priv && matches!(msg.data, MsgData::Encrypted(_)))
+    }
+}
+
 impl SnmpSocket for SnmpV3ClientSocket {
     type Message<'a> = SnmpV3Message<'a>;
 
@@ -244,7 +264,9 @@ impl SnmpSocket for SnmpV3ClientSocket {
         self.auth_key.sign(buf.data_mut(), offset)
     }
 
-    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>) -> Option<SnmpPdu<'a>> {
+    fn unwrap_pdu<'a>(&'a mut self, raw: &[u8], msg: Self::Message<'a>) -> Option<SnmpPdu<'a>> {
+        // Check if the message meets the security level of the session
+        let is_secure = self.is_authentic(raw, &msg) && self.is_private(&msg);
         // Get and decode scoped pdu
         let data = match msg.data {
             MsgData::Plaintext(x) => x,
@@ -261,6 +283,10 @@ impl SnmpSocket for SnmpV3ClientSocket {
         {
             return None;
         }
+        // Only reports may be insecure
+        if !is_secure && !matches!(data.pdu, SnmpPdu::Report(_)) {
+            return None;
+        }
         // Update engine parameters
         self.engine_boots = msg.usm.engine_boots;
         self.engine_time = msg.usm.engine_time;
-- 
2.43.0


From af41effa56563f5160957009a57058180544b266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:16 +0000
Subject: [PATCH 10/19] fix: reset DES private buffer before encryption

---
 src/privacy/des.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/privacy/des.rs b/src/privacy/des.rs
index 7af1571..32e39a9 100644
--- a/src/privacy/des.rs
+++ b/src/privacy/des.rs
@@ -65,6 +65,7 @@ impl SnmpPriv for DesKey {
             iv[idx] = x ^ y;
         }
         // Add padding
+        self.buf.reset();
         self.buf.push(&PADDING)?;
         // Serialize
         pdu.push_ber(&mut self.buf)?;
-- 
2.43.0


From e148981c22a6c2f97bd0ad3bf6512f6be3308471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:38 +0000
Subject: [PATCH 11/19] fix: refuse empty passwords and keys of the wrong size

---
 src/auth/mod.rs | 6 +++---
 src/util.rs     | 3 +++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/auth/mod.rs b/src/auth/mod.rs
index 18c0db9..679da01 100644
--- a/src/auth/mod.rs
+++ b/src/auth/mod.rs
@@ -78,9 +78,9 @@ impl AuthKey {
     pub fn as_key_type(&mut self, alg: u8, key: &[u8], engine_id: &[u8]) -> SnmpResult<()> {
         if self.has_auth() {
             match alg & KT_TYPE_MASK {
-                KT_PASSWORD => self.as_password(key, engine_id),
-                KT_MASTER => self.as_master(key, engine_id),
-                KT_LOCALIZED => self.as_localized(key),
+                KT_PASSWORD if !key.is_empty() => self.as_password(key, engine_id),
+                KT_MASTER if key.len() == self.get_key_size() => self.as_master(key, engine_id),
+                KT_LOCALIZED if key.len() == self.get_key_size() => self.as_localized(key),
                 _ => return Err(SnmpError::InvalidKey),
             }
         }
diff --git a/src/util.rs b/src/util.rs
index c02d500..a4beeb5 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -13,6 +13,9 @@ use pyo3::types::PyBytes;
 // Convert key to master key
 #[pyfunction]
 pub fn get_master_key(py: Python, alg: u8, passwd: &[u8]) -> PyResult<PyObject> {
+    if passwd.is_empty() {
+        return Err(PyValueError::new_err("empty password"));
+    }
     let auth = AuthKey::new(alg)?;
     let mut out = vec![0u8; auth.get_key_size()];
     auth.password_to_master(passwd, &mut out);
-- 
2.43.0


From df20bb0a9f022df8a3871bcd21f56999907b4012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:02 +0000
Subject: [PATCH 12/19] fix: do not expose unwritten bytes after Buffer::skip

---
 src/buf/buffer.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/buf/buffer.rs b/src/buf/buffer.rs
index 8897c01..ce5c084 100755
--- a/src/buf/buffer.rs
+++ b/src/buf/buffer.rs
@@ -84,11 +84,10 @@ impl Buffer {
     }
     #[inline]
     pub fn skip(&mut self, size: usize) {
-        if self.pos < size {
-            self.pos = 0
-        } else {
-            self.pos -= size
-        }
+        let end = self.pos;
+        self.pos = end.saturating_sub(size);
+        // Skipped area becomes visible, so it must be initialized
+        self.data[self.pos..end].fill(MaybeUninit::new(0));
     }
     #[inline]
     fn push_u8_unchecked(&mut self, v: u8) {
-- 
2.43.0


From ec4ddf704b74de279fa602b1145b80bad62a9633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:48 +0000
Subject: [PATCH 13/19] fix: do not let unwanted datagrams extend the timeout
 of blocking calls

---
 src/gufo/snmp/sync_client/client.py | 11 ++++++--
 src/socket/snmpsocket.rs            | 44 +++++++++++++++++++++++++++--
 2 files changed, 50 insertions(+), 5 deletions(-)

diff --git a/src/gufo/snmp/sync_client/client.py b/src/gufo/snmp/sync_client/client.py
index e67dd4a..c093423 100644
--- a/src/gufo/snmp/sync_client/client.py
+++ b/src/gufo/snmp/sync_client/client.py
@@ -311,7 +311,7 @@ class SnmpSession(object):
 
         if self._deferred_user:
             # First check runs engine id discovery
-            self._sock.refresh()
+            self._refresh()
             # Set and localize actual keys
             self._sock.set_keys(
                 self._deferred_user.name,
@@ -326,7 +326,14 @@ class SnmpSession(object):
             self._deferred_user = None
 
         # Refresh engine boots and time
-        self._sock.refresh()
+        self._refresh()
+
+    def _refresh(self: "SnmpSession") -> None:
+        """Send and receive single REPORT."""
+        try:
+            self._sock.refresh()
+        except BlockingIOError as e:
+            raise TimeoutError from e
 
     def get_engine_id(self: "SnmpSession") -> bytes:
         """
diff --git a/src/socket/snmpsocket.rs b/src/socket/snmpsocket.rs
index ed4f85e..5b90a59 100644
--- a/src/socket/snmpsocket.rs
+++ b/src/socket/snmpsocket.rs
@@ -16,7 +16,10 @@ use crate::{
 use pyo3::prelude::*;
 use socket2::{Domain, Protocol, Socket, Type};
 use std::net::SocketAddr;
-use std::time::Duration;
+use std::time::{Duration, Instant};
+
+// Minimal non-zero socket timeout
+const MIN_TIMEOUT: Duration = Duration::from_micros(1);
 
 pub(crate) trait SnmpSocket
 where
@@ -48,7 +51,8 @@ where
             .map_err(|e| SnmpError::SocketError(e.to_string()))?;
         if timeout_ns > 0 {
             // Blocking mode
-            io.set_read_timeout(Some(Duration::from_nanos(timeout_ns)))
+            // Microseconds are the finest resolution, zero means no timeout at all
+            io.set_read_timeout(Some(Duration::from_nanos(timeout_ns).max(MIN_TIMEOUT)))
                 .map_err(|e| SnmpError::SocketError(e.to_string()))?;
         } else {
             // Mark socket as non-blocking
@@ -124,6 +128,31 @@ where
     }
 
     fn _recv_inner<'a, T, V>(&mut self, iter: Option<&mut GetIter>) -> PyResult<PyObject>
+    where
+        T: PyOp<'a, V>,
+        V: 'a,
+    {
+        // None in non-blocking mode
+        let timeout = self
+            .get_io()
+            .read_timeout()
+            .map_err(|e| SnmpError::SocketError(e.to_string()))?;
+        let r = self._recv_until::<T, V>(iter, timeout.map(|t| Instant::now() + t));
+        // Restore timeout, if shortened
+        if timeout.is_some() {
+            self.get_io()
+                .set_read_timeout(timeout)
+                .map_err(|e| SnmpError::SocketError(e.to_string()))?;
+        }
+        r
+    }
+
+    // Receive until the deadline
+    fn _recv_until<'a, T, V>(
+        &mut self,
+        iter: Option<&mut GetIter>,
+        deadline: Option<Instant>,
+    ) -> PyResult<PyObject>
     where
         T: PyOp<'a, V>,
         V: 'a,
@@ -146,7 +175,16 @@ where
                 }
                 None => {
                     buf.reset();
-                    continue;
+                    // Unwanted reply must not extend the timeout
+                    if let Some(deadline) = deadline {
+                        let left = deadline.saturating_duration_since(Instant::now());
+                        if left.is_zero() {
+                            return Err(SnmpError::WouldBlock.into());
+                        }
+                        self.get_io()
+                            .set_read_timeout(Some(left.max(MIN_TIMEOUT)))
+                            .map_err(|e| SnmpError::SocketError(e.to_string()))?;
+                    }
                 }
             }
         }
-- 
2.43.0


From 2a99d1be069e0ddbe05f8e2795a62e2e95295a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:28 +0000
Subject: [PATCH 14/19] fix: round the policer interval up so the rate never
 exceeds rps

---
 src/gufo/snmp/policer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gufo/snmp/policer.py b/src/gufo/snmp/policer.py
index ddf1bc2..5f11045 100644
--- a/src/gufo/snmp/policer.py
+++ b/src/gufo/snmp/policer.py
@@ -10,6 +10,7 @@
 # Python modules
 import asyncio
 from abc import ABC, abstractmethod
+from math import ceil
 from time import perf_counter_ns, sleep
 from typing import Optional
 
@@ -92,10 +93,11 @@ class RPSPolicer(BasePolicer):
             msg = "Invalid RPS"
             raise ValueError(msg)
         self._prev: Optional[int] = None
-        self._delta: int = int(NS / rps)
-        if not self._delta:
+        if rps > NS:
             msg = "RPS is too high"
             raise ValueError(msg)
+        # Round up, as the truncated interval exceeds the desired rate
+        self._delta: int = ceil(NS / rps)
 
     def get_timeout(self: "RPSPolicer", ts: int) -> Optional[int]:
         """
-- 
2.43.0


From 823d166cd03dd9058e535281479bddeec392ec33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:28 +0000
Subject: [PATCH 15/19] fix: apply the policer to requests sent by the
 synchronous refresh()

---
 src/gufo/snmp/sync_client/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gufo/snmp/sync_client/client.py b/src/gufo/snmp/sync_client/client.py
index c093423..b9406de 100644
--- a/src/gufo/snmp/sync_client/client.py
+++ b/src/gufo/snmp/sync_client/client.py
@@ -330,6 +330,8 @@ class SnmpSession(object):
 
     def _refresh(self: "SnmpSession") -> None:
         """Send and receive single REPORT."""
+        if self._policer:
+            self._policer.wait_sync()
         try:
             self._sock.refresh()
         except BlockingIOError as e:
-- 
2.43.0


From 7931b2f82d0ac5e2a175b2c069a405117bd0283d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:15 +0000
Subject: [PATCH 16/19] fix: render received OIDs below 2.40 and 2.999 as X.690
 pp 8.19.4 demands

---
 src/ber/objectid.rs | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/ber/objectid.rs b/src/ber/objectid.rs
index 023de25..87323c9 100755
--- a/src/ber/objectid.rs
+++ b/src/ber/objectid.rs
@@ -63,31 +63,41 @@ impl<'py> IntoPyObject<'py> for &SnmpOid<'_> {
     }
 }
 
+// Maximal value of subelement
+const MAX_ARC: u64 = u32::MAX as u64;
+
 impl TryFrom<&SnmpOid<'_>> for String {
     type Error = SnmpError;
 
     fn try_from(value: &SnmpOid) -> Result<Self, Self::Error> {
         let mut r = String::with_capacity(value.0.len() * 5);
-        let mut iter = value.0.iter();
-        // First two subelements
-        let first = iter.next().ok_or(SnmpError::InvalidData)?;
-        write!(r, "{}.{}", first / 40, first % 40).map_err(|_| SnmpError::InvalidData)?;
-        let mut b = 0u32;
-        let mut complete = true;
-        for c in iter {
-            if b > u32::MAX >> 7 {
+        let mut is_first = true;
+        let mut b = 0u64;
+        let mut complete = false;
+        for c in value.0.iter() {
+            b = (b << 7) | ((*c as u64) & 0x7f);
+            if b > MAX_ARC + 80 {
                 // Arc exceeds 2^32-1
                 return Err(SnmpError::InvalidData);
             }
-            b = (b << 7) + ((*c as u32) & 0x7f);
             complete = c & 0x80 == 0;
             if complete {
-                write!(r, ".{}", b).map_err(|_| SnmpError::InvalidData)?;
+                if is_first {
+                    // First two subelements, X.690 pp 8.19.4
+                    let first = (b / 40).min(2);
+                    write!(r, "{}.{}", first, b - first * 40)
+                } else if b > MAX_ARC {
+                    return Err(SnmpError::InvalidData);
+                } else {
+                    write!(r, ".{}", b)
+                }
+                .map_err(|_| SnmpError::InvalidData)?;
+                is_first = false;
                 b = 0;
             }
         }
         if !complete {
-            // Last arc is cut
+            // Empty, or the last arc is cut
             return Err(SnmpError::InvalidData);
         }
         Ok(r)
@@ -115,7 +125,7 @@ impl SnmpOid<'_> {
     }
 }
 
-// Limits of the first two subelements, which share one octet
+// Limits of the first two subelements, which share one octet on encoding
 const MAX_FIRST: u32 = 2;
 const MAX_SECOND: u32 = 39;
 
-- 
2.43.0


From f60497d68a97aa41a7d0804654489753a95bf935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:46 +0000
Subject: [PATCH 17/19] fix: reject malformed OIDs in the names of received
 varbinds

Padded, cut or oversized names had been accepted and then sent back as-is
by the next request of a walk.
---
 src/ber/objectid.rs     | 23 +++++++++++++++++++++++
 src/snmp/getresponse.rs |  8 ++++----
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/ber/objectid.rs b/src/ber/objectid.rs
index 87323c9..a641b89 100755
--- a/src/ber/objectid.rs
+++ b/src/ber/objectid.rs
@@ -110,6 +110,29 @@ impl SnmpOid<'_> {
     pub fn starts_with(&self, oid: &SnmpOid) -> bool {
         oid.0.starts_with(&self.0)
     }
+    // Check oid is well-formed: has at least one subidentifier,
+    // and all of them are complete, in range and without leading zeroes
+    // (X.690 pp 8.19.2)
+    pub fn is_valid(&self) -> bool {
+        let mut limit = MAX_ARC + 80; // First two subelements are combined
+        let mut is_start = true;
+        let mut b = 0u64;
+        for c in self.0.iter() {
+            if is_start && *c == 0x80 {
+                return false;
+            }
+            b = (b << 7) | ((*c as u64) & 0x7f);
+            if b > limit {
+                return false;
+            }
+            is_start = c & 0x80 == 0;
+            if is_start {
+                limit = MAX_ARC;
+                b = 0;
+            }
+        }
+        is_start && !self.0.is_empty()
+    }
     // Check if oid lexicographically follows the other one.
     // Compared arc by arc, as the order of encoded octets differs
     // for the arcs of the different length.
diff --git a/src/snmp/getresponse.rs b/src/snmp/getresponse.rs
index 0d97f18..f7cd256 100755
--- a/src/snmp/getresponse.rs
+++ b/src/snmp/getresponse.rs
@@ -58,14 +58,14 @@ impl<'a> TryFrom<&'a [u8]> for SnmpGetResponse<'a> {
                     let (t, r_oid) = SnmpRelativeOid::from_ber(vs.0)?;
                     // Apply relative oid
                     let oid = r_oid.normalize(&vars[vars.len() - 1].oid);
-                    if oid.0.is_empty() {
-                        // Cannot be applied
-                        return Err(SnmpError::InvalidData);
-                    }
                     (t, oid)
                 }
                 _ => return Err(SnmpError::UnexpectedTag),
             };
+            if !oid.is_valid() {
+                // Would be sent back as-is by the following GETNEXT/GETBULK
+                return Err(SnmpError::InvalidData);
+            }
             // Parse value
             let (_, value) = SnmpValue::from_ber(tail)?;
             // Append an item
-- 
2.43.0


From 16d16b3a89beafd6fd9e36f217ad20f7f18de87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:20 +0000
Subject: [PATCH 18/19] fix: let the async client check its timeout between
 unwanted replies

The non-blocking receive drained the socket to the end, so a peer sending
unwanted datagrams fast enough kept the event loop busy over the timeout.
---
 src/socket/snmpsocket.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/socket/snmpsocket.rs b/src/socket/snmpsocket.rs
index 5b90a59..391e7fe 100644
--- a/src/socket/snmpsocket.rs
+++ b/src/socket/snmpsocket.rs
@@ -176,15 +176,18 @@ where
                 None => {
                     buf.reset();
                     // Unwanted reply must not extend the timeout
-                    if let Some(deadline) = deadline {
-                        let left = deadline.saturating_duration_since(Instant::now());
-                        if left.is_zero() {
-                            return Err(SnmpError::WouldBlock.into());
-                        }
-                        self.get_io()
-                            .set_read_timeout(Some(left.max(MIN_TIMEOUT)))
-                            .map_err(|e| SnmpError::SocketError(e.to_string()))?;
+                    let Some(deadline) = deadline else {
+                        // Non-blocking mode, the caller will try again.
+                        // Give it a chance to check its own timeout.
+                        return Err(SnmpError::WouldBlock.into());
+                    };
+                    let left = deadline.saturating_duration_since(Instant::now());
+                    if left.is_zero() {
+                        return Err(SnmpError::WouldBlock.into());
                     }
+                    self.get_io()
+                        .set_read_timeout(Some(left.max(MIN_TIMEOUT)))
+                        .map_err(|e| SnmpError::SocketError(e.to_string()))?;
                 }
             }
         }
-- 
2.43.0


From 1b20c329e10a95e14c75e708c4a59a5bf0c53aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:41 +0000
Subject: [PATCH 19/19] fix: Buffer::as_slice must not leave the buffer, the
 buffer is initialized

---
 src/buf/buffer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/buf/buffer.rs b/src/buf/buffer.rs
index ce5c084..5726042 100755
--- a/src/buf/buffer.rs
+++ b/src/buf/buffer.rs
@@ -21,13 +21,12 @@ pub struct Buffer {
 }
 
 impl Default for Buffer {
-    #[allow(invalid_value)]
-    #[allow(clippy::uninit_assumed_init)]
     fn default() -> Buffer {
         Buffer {
             pos: MAX_SIZE,
             bookmark: 0,
-            data: unsafe { MaybeUninit::uninit().assume_init() },
+            // as_slice() may expose any part of the buffer, so it must be initialized
+            data: [MaybeUninit::new(0); MAX_SIZE],
         }
     }
 }
@@ -157,7 +156,8 @@ impl Buffer {
         self.pos = MAX_SIZE;
     }
     pub fn as_slice(&self, len: usize) -> &[u8] {
-        unsafe { slice::from_raw_parts(self.data.as_ptr() as *const u8, len) }
+        // Must not leave the buffer
+        unsafe { slice::from_raw_parts(self.data.as_ptr() as *const u8, len.min(MAX_SIZE)) }
     }
 }
 
-- 
2.43.0

