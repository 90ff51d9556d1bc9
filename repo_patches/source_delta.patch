From 4870decdb9b1e8ad5bfee5985e65285c2279459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:50 +0000
Subject: [PATCH 01/39] fix: payload offset overflow on an overlong adaptation
 field

An adaptation field length of 251 or more overflowed the u8 offset: a panic
with overflow checks, an offset inside the header without them. Saturate, so
that such a packet has no payload.
---
 src/ts/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ts/mod.rs b/src/ts/mod.rs
index aad30df..9c88373 100644
--- a/src/ts/mod.rs
+++ b/src/ts/mod.rs
@@ -83,7 +83,7 @@ pub fn get_payload_offset(ts: &[u8]) -> u8 {
     if ! is_adaptation(ts) {
         4
     } else {
-        4 + 1 + get_adaptation_size(ts)
+        get_adaptation_size(ts).saturating_add(4 + 1)
     }
 }
 
-- 
2.43.0


From 592d8eb9227d513b89a2e3cd78ff7a945516ea33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:50 +0000
Subject: [PATCH 02/39] fix: pointer field that leads past the end of the
 packet

The limit of 183 is right only without an adaptation field. With one, the
section start could lie beyond the packet and slicing panicked.
---
 src/psi/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index ad66cd6..6a981a4 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -116,11 +116,11 @@ impl Psi {
 
         if ts::is_pusi(ts) {
             let pointer_field = ts[ts_offset] as usize;
-            if pointer_field >= 183 {
+            let ts_offset = ts_offset + 1;
+            if ts_offset + pointer_field >= 188 {
                 self.clear();
                 return;
             }
-            let ts_offset = ts_offset + 1;
 
             if pointer_field == 0 || cc != (self.cc + 1) & 0x0F {
                 self.clear();
-- 
2.43.0


From 6629dac8728ba6969324ba2c967d840007dd5ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:50 +0000
Subject: [PATCH 03/39] fix: section header split over more than two packets

While fewer than three bytes of a section are collected its size is not known
yet. A continuation packet with one byte of payload emptied the buffer.
---
 src/psi/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index 6a981a4..608eab6 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -146,7 +146,7 @@ impl Psi {
             }
 
             self.push(&ts[ts_offset .. 188]);
-            if self.buffer.len() > self.size {
+            if self.size != 0 && self.buffer.len() > self.size {
                 self.buffer.resize(self.size, 0x00);
             }
         }
-- 
2.43.0


From fb8a151c3d5b3ce80d342a69e7a94eb62d9cb049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:50 +0000
Subject: [PATCH 04/39] fix: continuation packet taken for the start of a
 section

With no section in progress, the payload of a packet without the unit start
flag was collected as if it began with a section header.
---
 src/psi/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index 608eab6..fd666af 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -140,7 +140,7 @@ impl Psi {
                 self.push(&ts[ts_offset .. 188]);
             }
         } else {
-            if cc != (self.cc + 1) & 0x0F {
+            if self.buffer.is_empty() || cc != (self.cc + 1) & 0x0F {
                 self.clear();
                 return;
             }
-- 
2.43.0


From e41105d5b32ac69e88bde5a53f4e536ddcd61072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:50 +0000
Subject: [PATCH 05/39] fix: section that starts behind the end of another one
 was lost

After a packet with the end of one section and the start of the next, a
continuation packet dropped the new section and restored the old one. Drop
the completed section instead, as it is done for unit start packets.
---
 src/psi/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index fd666af..f90bd67 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -145,6 +145,10 @@ impl Psi {
                 return;
             }
 
+            if self.size != 0 && self.buffer.len() > self.size {
+                self.buffer.drain(0 .. self.size);
+                self.size = 0;
+            }
             self.push(&ts[ts_offset .. 188]);
             if self.size != 0 && self.buffer.len() > self.size {
                 self.buffer.resize(self.size, 0x00);
-- 
2.43.0


From 60ef11c3dadcf68455193e68d394623d728e6d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:47 +0000
Subject: [PATCH 06/39] fix: unbounded growth of the section buffer

Only one completed section is dropped per packet. A stream with several short
sections in each packet made the buffer grow forever. Start over when it holds
more than one section of the largest size and a packet.
---
 src/psi/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index f90bd67..167f790 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -122,7 +122,7 @@ impl Psi {
                 return;
             }
 
-            if pointer_field == 0 || cc != (self.cc + 1) & 0x0F {
+            if pointer_field == 0 || cc != (self.cc + 1) & 0x0F || self.buffer.len() > 4095 + 188 {
                 self.clear();
             }
 
-- 
2.43.0


From 14c651a010dcb1856d36f92e834f55c313511e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:19 +0000
Subject: [PATCH 07/39] fix: program descriptors of the PMT read one byte early

The descriptor loop begins behind the 12-byte header. It was parsed from the
low byte of its own length field.
---
 src/psi/pmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psi/pmt.rs b/src/psi/pmt.rs
index 16d3eb2..fdc5002 100644
--- a/src/psi/pmt.rs
+++ b/src/psi/pmt.rs
@@ -138,7 +138,7 @@ impl Pmt {
         self.pcr = psi.buffer[8 ..].get_u16() & 0x1FFF;
 
         let descriptors_len = (psi.buffer[10 ..].get_u16() & 0x0FFF) as usize;
-        self.descriptors.parse(&psi.buffer[11 .. 11 + descriptors_len]);
+        self.descriptors.parse(&psi.buffer[12 .. 12 + descriptors_len]);
 
         let ptr = &psi.buffer[12 + descriptors_len .. psi.size - 4];
         let mut skip = 0;
-- 
2.43.0


From 99288c6d13c51a3f8ada700501cb8c075e20fbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:21 +0000
Subject: [PATCH 08/39] fix: descriptor loop longer than its section

PMT, NIT and TOT took the loop length from the stream unchecked and panicked
when it reached past the end of the section.
---
 src/psi/nit.rs | 3 +++
 src/psi/pmt.rs | 3 +++
 src/psi/tot.rs | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/psi/nit.rs b/src/psi/nit.rs
index cb0060e..8da33dd 100644
--- a/src/psi/nit.rs
+++ b/src/psi/nit.rs
@@ -106,6 +106,9 @@ impl Nit {
         self.version = (psi.buffer[5] & 0x3E) >> 1;
 
         let descriptors_len = (psi.buffer[8 ..].get_u16() & 0x0FFF) as usize;
+        if 12 + descriptors_len > psi.size - 4 {
+            return;
+        }
         self.descriptors.parse(&psi.buffer[10 .. 10 + descriptors_len]);
 
         let ptr = &psi.buffer[12 + descriptors_len .. psi.size - 4];
diff --git a/src/psi/pmt.rs b/src/psi/pmt.rs
index fdc5002..b85a2d8 100644
--- a/src/psi/pmt.rs
+++ b/src/psi/pmt.rs
@@ -138,6 +138,9 @@ impl Pmt {
         self.pcr = psi.buffer[8 ..].get_u16() & 0x1FFF;
 
         let descriptors_len = (psi.buffer[10 ..].get_u16() & 0x0FFF) as usize;
+        if 12 + descriptors_len > psi.size - 4 {
+            return;
+        }
         self.descriptors.parse(&psi.buffer[12 .. 12 + descriptors_len]);
 
         let ptr = &psi.buffer[12 + descriptors_len .. psi.size - 4];
diff --git a/src/psi/tot.rs b/src/psi/tot.rs
index a164000..0f541fd 100644
--- a/src/psi/tot.rs
+++ b/src/psi/tot.rs
@@ -49,6 +49,9 @@ impl Tot {
             u64::from(psi.buffer[5 ..].get_u24().from_bcd_time());
 
         let descriptors_len = (psi.buffer[8 ..].get_u16() & 0x0FFF) as usize;
+        if 10 + descriptors_len > psi.size - 4 {
+            return;
+        }
         self.descriptors.parse(&psi.buffer[10 .. 10 + descriptors_len]);
     }
 }
-- 
2.43.0


From f83c8261599a0b1353b6983aeb4890f531241e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:22 +0000
Subject: [PATCH 09/39] fix: TDT parsed from an incomplete section

The section has no checksum and its length was not compared with the bytes
collected so far, so a TDT split over two packets caused a panic.
---
 src/psi/tdt.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psi/tdt.rs b/src/psi/tdt.rs
index b491402..63a1b62 100644
--- a/src/psi/tdt.rs
+++ b/src/psi/tdt.rs
@@ -33,6 +33,7 @@ impl Tdt {
     #[inline]
     fn check(&self, psi: &Psi) -> bool {
         psi.size == 8 &&
+        psi.buffer.len() >= psi.size &&
         psi.buffer[0] == 0x70
     }
 
-- 
2.43.0


From 645748dcccd67e99a90d9eb901f439e5e16cfe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:23 +0000
Subject: [PATCH 10/39] fix: panic on digits above nine in BCD fields

The fields come from the stream, where all ones stands for an undefined time.
The hours of a 16-bit time also overflowed in the 8-bit multiplication.
---
 src/psi/utils/bcd.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/psi/utils/bcd.rs b/src/psi/utils/bcd.rs
index 372826d..4e1595e 100644
--- a/src/psi/utils/bcd.rs
+++ b/src/psi/utils/bcd.rs
@@ -17,8 +17,6 @@ pub trait BCD {
 impl BCD for u8 {
     #[inline]
     fn from_bcd(self) -> Self {
-        debug_assert!((self & 0xF0) < 0xA0);
-        debug_assert!((self & 0x0F) < 0x0A);
         self - (self >> 4) * 6
     }
 
@@ -67,7 +65,7 @@ pub trait BCDTime {
 impl BCDTime for u16 {
     #[inline]
     fn from_bcd_time(self) -> Self {
-        u16::from(u8::from_bcd((self >> 8) as u8) * 60) +
+        u16::from(u8::from_bcd((self >> 8) as u8)) * 60 +
         u16::from(u8::from_bcd(self as u8))
     }
 
-- 
2.43.0


From ea789ada96d5439f34e554ab200c04cfc185d6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:24 +0000
Subject: [PATCH 11/39] fix: panic on dates before 1970

The date is read from the stream. Dates before the Unix epoch have no
representation here and are clamped to it.
---
 src/psi/utils/mjd.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/psi/utils/mjd.rs b/src/psi/utils/mjd.rs
index a261d97..e6fcfa1 100644
--- a/src/psi/utils/mjd.rs
+++ b/src/psi/utils/mjd.rs
@@ -17,8 +17,7 @@ pub trait MJDTo {
 impl MJDFrom for u16 {
     #[inline]
     fn from_mjd(self) -> u64 {
-        debug_assert!(self >= 40587);
-        (u64::from(self) - 40587) * 86400
+        u64::from(self).saturating_sub(40587) * 86400
     }
 }
 
-- 
2.43.0


From 1d1c41f33f9a835c52aa6e25bb10334ab24233ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:17 +0000
Subject: [PATCH 12/39] fix: programs that do not fit into one PAT section were
 dropped

Assembling a PAT with more than 253 programs silently lost the rest. Continue
in another section, as the other tables do.
---
 src/psi/pat.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/psi/pat.rs b/src/psi/pat.rs
index ddb4f2d..6512c7e 100644
--- a/src/psi/pat.rs
+++ b/src/psi/pat.rs
@@ -100,17 +100,21 @@ impl Pat {
 
 impl PsiDemux for Pat {
     fn psi_list_assemble(&self) -> Vec<Psi> {
+        let mut psi_list = Vec::new();
         let mut psi = Psi::new(0x00, 8, self.version);
         psi.buffer[3 ..].set_u16(self.tsid);
 
         for item in &self.items {
             if psi.buffer.len() + item.size() > PAT_SECTION_SIZE {
-                break;
+                psi_list.push(psi);
+                psi = Psi::new(0x00, 8, self.version);
+                psi.buffer[3 ..].set_u16(self.tsid);
             }
             item.assemble(&mut psi.buffer);
         }
 
-        vec![psi]
+        psi_list.push(psi);
+        psi_list
     }
 }
 
-- 
2.43.0


From 126f9f615295ffb009bcd3c3cd6216e1ec680a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:59 +0000
Subject: [PATCH 13/39] fix: panic on out of range frequency and orbital
 position

---
 src/psi/descriptors/x43.rs | 2 +-
 src/psi/descriptors/x44.rs | 2 +-
 src/psi/descriptors/x5a.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/psi/descriptors/x43.rs b/src/psi/descriptors/x43.rs
index 0692971..8dec5a0 100644
--- a/src/psi/descriptors/x43.rs
+++ b/src/psi/descriptors/x43.rs
@@ -51,7 +51,7 @@ impl Desc43 {
     pub fn parse(slice: &[u8]) -> Self {
         Self {
             frequency: slice[2 ..].get_u32().from_bcd() * 10,
-            orbital_position: slice[6 ..].get_u16().from_bcd() * 6,
+            orbital_position: slice[6 ..].get_u16().from_bcd().saturating_mul(6),
             west_east_flag: (slice[8] & 0b1000_0000) >> 7,
             polarization: (slice[8] & 0b0110_0000) >> 5,
             rof: (slice[8] & 0b0001_1000) >> 3,
diff --git a/src/psi/descriptors/x44.rs b/src/psi/descriptors/x44.rs
index 2375d9c..c540d77 100644
--- a/src/psi/descriptors/x44.rs
+++ b/src/psi/descriptors/x44.rs
@@ -41,7 +41,7 @@ impl Desc44 {
 
     pub fn parse(slice: &[u8]) -> Self {
         Self {
-            frequency: slice[2 ..].get_u32().from_bcd() * 100,
+            frequency: slice[2 ..].get_u32().from_bcd().saturating_mul(100),
             fec_outer: slice[7] & 0x0F,
             modulation: slice[8],
             symbol_rate: slice[9 ..].get_u24().from_bcd(),
diff --git a/src/psi/descriptors/x5a.rs b/src/psi/descriptors/x5a.rs
index a8e0e49..10e6b55 100644
--- a/src/psi/descriptors/x5a.rs
+++ b/src/psi/descriptors/x5a.rs
@@ -60,7 +60,7 @@ impl Desc5A {
 
     pub fn parse(slice: &[u8]) -> Self {
         Self {
-            frequency: slice[2 ..].get_u32() * 10,
+            frequency: slice[2 ..].get_u32().saturating_mul(10),
             bandwidth: (slice[6] & 0b1110_0000) >> 5,
             priority: (slice[6] & 0b0001_0000) >> 4,
             time_slicing: (slice[6] & 0b0000_1000) >> 3,
-- 
2.43.0


From 26f445ead83ab63876398e7d3d9eb3073d5baaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:59 +0000
Subject: [PATCH 14/39] fix: text length read past the end of a descriptor

---
 src/psi/descriptors/x48.rs | 4 ++++
 src/psi/descriptors/x4d.rs | 4 ++++
 src/psi/descriptors/x4e.rs | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/psi/descriptors/x48.rs b/src/psi/descriptors/x48.rs
index c3831f1..f7d187e 100644
--- a/src/psi/descriptors/x48.rs
+++ b/src/psi/descriptors/x48.rs
@@ -34,6 +34,10 @@ impl Desc48 {
         }
 
         let provider_length = usize::from(slice[3]);
+        if slice.len() < MIN_SIZE + provider_length {
+            return false;
+        }
+
         let name_length = usize::from(slice[4 + provider_length]);
 
         usize::from(slice[1]) == MIN_SIZE - 2 + provider_length + name_length
diff --git a/src/psi/descriptors/x4d.rs b/src/psi/descriptors/x4d.rs
index 35f87ca..0770025 100644
--- a/src/psi/descriptors/x4d.rs
+++ b/src/psi/descriptors/x4d.rs
@@ -34,6 +34,10 @@ impl Desc4D {
         }
 
         let event_name_length = usize::from(slice[5]);
+        if slice.len() < MIN_SIZE + event_name_length {
+            return false;
+        }
+
         let text_length = usize::from(slice[6 + event_name_length]);
         usize::from(slice[1]) == MIN_SIZE - 2 + event_name_length + text_length
     }
diff --git a/src/psi/descriptors/x4e.rs b/src/psi/descriptors/x4e.rs
index 762bc3c..8d11ae1 100644
--- a/src/psi/descriptors/x4e.rs
+++ b/src/psi/descriptors/x4e.rs
@@ -42,6 +42,10 @@ impl Desc4E {
         }
 
         let length_of_items = usize::from(slice[6]);
+        if slice.len() < MIN_SIZE + length_of_items {
+            return false;
+        }
+
         let text_length = usize::from(slice[7 + length_of_items]);
         usize::from(slice[1]) == MIN_SIZE - 2 + length_of_items + text_length
     }
-- 
2.43.0


From 38a2137d128696c2028db619661246e9809be025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:59 +0000
Subject: [PATCH 15/39] fix: items of the extended event descriptor read past
 their end

---
 src/psi/descriptors/x4e.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/psi/descriptors/x4e.rs b/src/psi/descriptors/x4e.rs
index 8d11ae1..214daad 100644
--- a/src/psi/descriptors/x4e.rs
+++ b/src/psi/descriptors/x4e.rs
@@ -65,8 +65,14 @@ impl Desc4E {
                 while items_s < items_e {
                     let item_desc_s = items_s + 1;
                     let item_desc_e = item_desc_s + slice[items_s] as usize;
+                    if item_desc_e >= items_e {
+                        break;
+                    }
                     let item_text_s = item_desc_e + 1;
                     let item_text_e = item_text_s + slice[item_desc_e] as usize;
+                    if item_text_e > items_e {
+                        break;
+                    }
 
                     let item_desc = StringDVB::from(&slice[item_desc_s .. item_desc_e]);
                     let item_text = StringDVB::from(&slice[item_text_s .. item_text_e]);
-- 
2.43.0


From ae1eeabd78147e7a751669adf964e82bc3abd6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:59 +0000
Subject: [PATCH 16/39] fix: size of the extended event descriptor without item
 lengths

---
 src/psi/descriptors/x4e.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psi/descriptors/x4e.rs b/src/psi/descriptors/x4e.rs
index 214daad..678b0e2 100644
--- a/src/psi/descriptors/x4e.rs
+++ b/src/psi/descriptors/x4e.rs
@@ -98,7 +98,7 @@ impl Desc for Desc4E {
     fn size(&self) -> usize {
         let mut items_size = 0;
         for (item_desc, item_text) in &self.items {
-            items_size += item_desc.size() + item_text.size();
+            items_size += 1 + item_desc.size() + 1 + item_text.size();
         }
         MIN_SIZE + items_size + self.text.size()
     }
-- 
2.43.0


From 6faa158dcb2e59ae2060376e179984f2421dbabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:59 +0000
Subject: [PATCH 17/39] fix: panic on clone of a descriptor stored as raw data

---
 src/psi/descriptors/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/psi/descriptors/mod.rs b/src/psi/descriptors/mod.rs
index 0c85eb4..bfa343a 100644
--- a/src/psi/descriptors/mod.rs
+++ b/src/psi/descriptors/mod.rs
@@ -52,6 +52,11 @@ pub struct Descriptor(Box<dyn Desc>);
 
 impl Clone for Descriptor {
     fn clone(&self) -> Self {
+        // malformed descriptors are stored as is
+        if let Some(raw) = self.0.as_any_ref().downcast_ref::<DescRaw>() {
+            return raw.clone().into();
+        }
+
         match self.0.tag() {
             0x09 => self.downcast_ref::<Desc09>().clone().into(),
             0x0A => self.downcast_ref::<Desc0A>().clone().into(),
-- 
2.43.0


From a703919efd838e7e2ebdaf40f64346f8af732596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:07 +0000
Subject: [PATCH 18/39] fix: event schedule with two different table ids

The section of the first events kept the table id of the table as it was given
while all other sections start again at the first table of the schedule.
---
 src/psi/eit.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psi/eit.rs b/src/psi/eit.rs
index 82ee8f8..99ebd6f 100644
--- a/src/psi/eit.rs
+++ b/src/psi/eit.rs
@@ -239,6 +239,7 @@ impl PsiDemux for Eit {
 
         {
             let mut psi = self.psi_init();
+            psi.buffer[0] = current_table_id;
             psi.buffer[6] = current_section;
             psi_list.push(psi);
         }
-- 
2.43.0


From 8a43da9fd371ec5601075ee0fb50b94497ec3665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:33 +0000
Subject: [PATCH 19/39] fix: events after a gap in the schedule were put into
 the wrong segment

An event that starts more than one segment after the one before was written to
the very next segment. Go on to the segment of its time and send empty sections
for those in between.
---
 src/psi/eit.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/psi/eit.rs b/src/psi/eit.rs
index 99ebd6f..e7d455d 100644
--- a/src/psi/eit.rs
+++ b/src/psi/eit.rs
@@ -248,22 +248,25 @@ impl PsiDemux for Eit {
             let psi = psi_list.last_mut().unwrap();
 
             if item.start >= next_midnight {
-                midnight = next_midnight;
-                next_midnight = midnight + SEG_DURATION;
-
-                current_section = current_section / 8 * 8;
-                if current_section == 248 {
-                    current_section = 0;
-                    current_table_id += 1;
-                } else {
-                    current_section += 8;
+                // segments without events get an empty section
+                while item.start >= next_midnight {
+                    next_midnight += SEG_DURATION;
+
+                    current_section = current_section / 8 * 8;
+                    if current_section == 248 {
+                        current_section = 0;
+                        current_table_id += 1;
+                    } else {
+                        current_section += 8;
+                    }
+
+                    let mut psi = self.psi_init();
+                    psi.buffer[0] = current_table_id;
+                    psi.buffer[6] = current_section;
+                    psi_list.push(psi);
                 }
 
-                let mut psi = self.psi_init();
-                psi.buffer[0] = current_table_id;
-                psi.buffer[6] = current_section;
-                item.assemble(&mut psi.buffer);
-                psi_list.push(psi);
+                item.assemble(&mut psi_list.last_mut().unwrap().buffer);
                 continue;
             }
 
-- 
2.43.0


From 560e51340644381799b21462b1a6e9645e64bb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:36 +0000
Subject: [PATCH 20/39] fix: panic on printing a text in an unknown character
 table

A text received with a reserved table number could not be converted: to_string()
and the debug output of its descriptor panicked. Print its characters like other
ones that have no mapping.
---
 src/textcode/mod.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index 3ed2126..2ba3c55 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -101,18 +101,15 @@ impl fmt::Display for StringDVB {
             return f.write_str(&String::from_utf8_lossy(&self.data));
         }
 
-        let map = match get_codepage_map(self.codepage) {
-            Some(v) => v,
-            None => return Err(fmt::Error),
-        };
+        let map = get_codepage_map(self.codepage).unwrap_or(&[]);
 
         for &c in &self.data {
             if c <= 0x7F {
                 f.write_char(c as char)?;
             } else if c >= 0xA0 {
-                match map[c as usize - 0xA0] {
-                    0 => f.write_char('?'),
-                    u => f.write_char(unsafe { char::from_u32_unchecked(u32::from(u)) }),
+                match map.get(c as usize - 0xA0).cloned() {
+                    None | Some(0) => f.write_char('?'),
+                    Some(u) => f.write_char(unsafe { char::from_u32_unchecked(u32::from(u)) }),
                 }?;
             }
         }
-- 
2.43.0


From e2a98b1685aab1298f58e8d90d5015b71dd9a35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:37 +0000
Subject: [PATCH 21/39] fix: reserved character table numbers taken for other
 tables

EN 300 468 reserves 0x00 and 0x0C .. 0x0F, and a three-byte selection names one
of the tables 1 .. 15. Other values became table 4, tables that do not exist and
were sent again as another selection, or UTF-8.
---
 src/textcode/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index 2ba3c55..30aa9ed 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -296,12 +296,12 @@ impl<'a> From<&'a [u8]> for StringDVB {
                 codepage: 0,
                 data: Vec::from(data),
             }
-        } else if data[0] < 0x10 {
+        } else if data[0] >= 0x01 && data[0] <= 0x0B {
             StringDVB {
                 codepage: data[0] + 4,
                 data: Vec::from(&data[1 ..]),
             }
-        } else if data[0] == 0x10 && data.len() >= 3 {
+        } else if data[0] == 0x10 && data.len() >= 3 && data[1] == 0x00 && data[2] >= 0x01 && data[2] <= 0x0F {
             StringDVB {
                 codepage: data[2],
                 data: Vec::from(&data[3 ..]),
-- 
2.43.0


From efb7d092287210c3da4ca5a4fa8d4700a307bbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:38 +0000
Subject: [PATCH 22/39] fix: characters above U+FFFF encoded as unrelated ones

Only the lower 16 bits of the code point were looked up.
---
 src/textcode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index 30aa9ed..7b64053 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -151,7 +151,7 @@ impl StringDVB {
             data: {
                 let mut data: Vec<u8> = Vec::new();
                 for c in s.chars() {
-                    let c = c as u16;
+                    let c = cmp::min(c as u32, 0xFFFF) as u16;
                     if c <= 0x007F {
                         data.push(c as u8);
                     } else if c >= 0x00A0 {
-- 
2.43.0


From 98985f88afe294e0b41efab756bfc657fcf28ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:39 +0000
Subject: [PATCH 23/39] fix: text truncated to less than three bytes or inside
 of a character

Less room than the dots need was a panic, and UTF-8 characters were cut.
---
 src/textcode/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index 7b64053..b0eb699 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -239,10 +239,15 @@ impl StringDVB {
 
     pub fn truncate(&mut self, size: usize) {
         if self.data.len() > size {
-            self.data.resize(size, 0);
-            self.data[size - 1] = b'.';
-            self.data[size - 2] = b'.';
-            self.data[size - 3] = b'.';
+            let dots = cmp::min(size, 3);
+            let mut end = size - dots;
+            if self.codepage == UTF8 {
+                while end > 0 && self.data[end] & 0xC0 == 0x80 {
+                    end -= 1;
+                }
+            }
+            self.data.truncate(end);
+            self.data.extend_from_slice(&b"..."[.. dots]);
         }
     }
 
-- 
2.43.0


From 4359064188bd3b17fbbfe6cb7dc6b5ac8008598d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:40 +0000
Subject: [PATCH 24/39] fix: endless splitting of texts into small parts

Parts without room for the table number and a character never advanced or
underflowed, and UTF-8 characters of four bytes could be cut.
---
 src/textcode/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index b0eb699..95b46b1 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -254,9 +254,10 @@ impl StringDVB {
     pub fn split(&self, size: usize) -> Vec<Self> {
         let size = match self.codepage {
             0 => size,
-            UTF8 => size - 1,
-            _ => size - 3,
+            UTF8 => size.saturating_sub(1),
+            _ => size.saturating_sub(3),
         };
+        let size = cmp::max(size, 1);
 
         let mut out: Vec<StringDVB> = Vec::new();
 
@@ -269,12 +270,16 @@ impl StringDVB {
         while skip < self.data.len() {
             let mut next = cmp::min(self.data.len(), skip + size);
             if self.codepage == UTF8 && next < self.data.len() {
-                for _ in 1 .. 3 {
-                    if self.data[next] & 0xC0 != 0x80 {
+                let end = next;
+                for _ in 0 .. 3 {
+                    if next == skip || self.data[next] & 0xC0 != 0x80 {
                         break;
                     }
                     next -= 1;
                 }
+                if next == skip {
+                    next = end;
+                }
             }
             out.push(StringDVB {
                 codepage: self.codepage,
-- 
2.43.0


From 9d1c03acb227c097e7d43b73684c71476774d249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:52 +0000
Subject: [PATCH 25/39] fix: packet lost by reading into an empty buffer

A drain that had nothing buffered fetched a packet and dropped it.
---
 src/reader/drain.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader/drain.rs b/src/reader/drain.rs
index db4a198..7ac60c6 100644
--- a/src/reader/drain.rs
+++ b/src/reader/drain.rs
@@ -54,6 +54,10 @@ impl<R: TsRead> TsDrain<R> {
 
 impl<R: TsRead> Read for TsDrain<R> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
+
         if self.pos == 0 {
             if buf.len() >= ts::PACKET_SIZE {
                 return self.inner.read(buf);
-- 
2.43.0


From 45eb911d85e1074377ad1060e66656bf5193acaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:58 +0000
Subject: [PATCH 26/39] fix: segment last section number of segments with
 several sections

---
 src/psi/eit.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/psi/eit.rs b/src/psi/eit.rs
index e7d455d..206d45c 100644
--- a/src/psi/eit.rs
+++ b/src/psi/eit.rs
@@ -284,22 +284,26 @@ impl PsiDemux for Eit {
             item.assemble(&mut psi.buffer);
         }
 
-        // TODO: fix Segment_last_Section_number
-
         current_table_id = 0x00;
         let mut last_section_number = 0x00;
+        let mut segment_last_section_number = 0x00;
 
         // Now current_section is last_section_number
         for psi in psi_list.iter_mut().rev() {
             if psi.buffer[0] != current_table_id {
                 current_table_id = psi.buffer[0];
                 last_section_number = psi.buffer[6];
+                segment_last_section_number = psi.buffer[6];
+            }
+
+            if psi.buffer[6] / 8 != segment_last_section_number / 8 {
+                segment_last_section_number = psi.buffer[6];
             }
 
             // Last_Section_number
             psi.buffer[7] = last_section_number;
             // Segment_last_Section_number
-            psi.buffer[12] = psi.buffer[6];
+            psi.buffer[12] = segment_last_section_number;
             // Last_table_id
             psi.buffer[13] = last_table_id;
 
-- 
2.43.0


From bfc96af7835b554bca13b2820154ab214fa281ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:23:53 +0000
Subject: [PATCH 27/39] fix: descriptors that do not fit into their length
 field corrupted the section

---
 src/psi/descriptors/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/psi/descriptors/mod.rs b/src/psi/descriptors/mod.rs
index bfa343a..30440f4 100644
--- a/src/psi/descriptors/mod.rs
+++ b/src/psi/descriptors/mod.rs
@@ -111,10 +111,20 @@ impl Descriptor {
     }
 
     #[inline]
-    fn assemble(&self, buffer: &mut Vec<u8>) { self.0.assemble(buffer) }
+    fn assemble(&self, buffer: &mut Vec<u8>) {
+        if self.size() > 0 {
+            self.0.assemble(buffer)
+        }
+    }
 
+    /// Descriptor larger than its length field allows is not assembled
     #[inline]
-    fn size(&self) -> usize { self.0.size() }
+    fn size(&self) -> usize {
+        match self.0.size() {
+            size if size > 2 + 0xFF => 0,
+            size => size,
+        }
+    }
 
     #[inline]
     pub fn tag(&self) -> u8 { self.0.tag() }
-- 
2.43.0


From a71a65c2dd6fa31c470e63305a9ca9d72eae3f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:26:36 +0000
Subject: [PATCH 28/39] fix: comparing incomplete sections panics

---
 src/psi/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index 167f790..b3b128b 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -61,6 +61,11 @@ impl Default for Psi {
 
 impl PartialEq for Psi {
     fn eq(&self, other: &Psi) -> bool {
+        if self.size < 4 || self.buffer.len() < self.size || other.buffer.len() < other.size {
+            // no checksum yet
+            return self.size == other.size && self.buffer == other.buffer;
+        }
+
         self.size == other.size && self.get_crc32() == other.get_crc32()
     }
 }
-- 
2.43.0


From 170c6a7b50d94af0834b8927ea2434352034eb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:26:36 +0000
Subject: [PATCH 29/39] fix: value of the outer FEC constant for Reed-Solomon
 coding

---
 src/constants.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/constants.rs b/src/constants.rs
index b8d814b..47e436a 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -35,7 +35,7 @@ pub const MODULATION_DVB_T_64QAM: u8  = 0b10;
 
 pub const FEC_OUTER_NOT_DEFINED: u8 = 0b0000;
 pub const FEC_OUTER_NO_CODING: u8   = 0b0001;
-pub const FEC_OUTER_RS: u8          = 0b0001;
+pub const FEC_OUTER_RS: u8          = 0b0010;
 
 pub const FEC_NOT_DEFINED: u8 = 0b0000;
 pub const FEC_1_2: u8         = 0b0001;
-- 
2.43.0


From 9c42b2e27b643f37f504e2a35a779403de98dfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:26:28 +0000
Subject: [PATCH 30/39] fix: the wrapped PTS difference was one tick short of
 the clock period

---
 src/es/pes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/es/pes.rs b/src/es/pes.rs
index 472b0d0..6cb6a27 100644
--- a/src/es/pes.rs
+++ b/src/es/pes.rs
@@ -79,7 +79,7 @@ pub fn pts_delta(last_pts: u64, current_pts: u64) -> u64 {
     if current_pts >= last_pts {
         current_pts - last_pts
     } else {
-        current_pts + PTS_MAX - last_pts
+        current_pts + PTS_NONE - last_pts
     }
 }
 
-- 
2.43.0


From e929563ccacafd5d77b357eee0e87b3de8cdbc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:26:28 +0000
Subject: [PATCH 31/39] fix: the jitter across a clock wrap was one tick off

---
 src/ts/pcr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ts/pcr.rs b/src/ts/pcr.rs
index 8dc1b50..7b5793d 100644
--- a/src/ts/pcr.rs
+++ b/src/ts/pcr.rs
@@ -115,14 +115,14 @@ pub fn pcr_to_stc(last_pcr: u64, bytes: u64, last_delta: u64, last_bytes: u64) -
 pub fn pcr_jitter_ns(pcr: u64, stc: u64) -> i64 {
     let mut result = {
         if pcr < stc {
-            pcr + PCR_MAX - stc
+            pcr + PCR_NONE - stc
         } else {
             pcr - stc
         }
     } as i64;
 
     if result > PCR_SYSTEM_CLOCK as i64 {
-        result -= PCR_MAX as i64;
+        result -= PCR_NONE as i64;
     }
 
     result * 1000 / PCR_CLOCK_US as i64
-- 
2.43.0


From a4198940bb946344f6f0ff7f575124037420f8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:29:42 +0000
Subject: [PATCH 32/39] fix: language codes with control characters changed the
 size of descriptors

A code is always three bytes, but a first byte below 0x20 was taken for
the codepage identifier of a text. The descriptor sent again was shorter
than its length field.
---
 src/psi/descriptors/x0a.rs | 2 +-
 src/psi/descriptors/x4d.rs | 2 +-
 src/psi/descriptors/x4e.rs | 2 +-
 src/psi/descriptors/x58.rs | 2 +-
 src/textcode/mod.rs        | 8 ++++++++
 5 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/psi/descriptors/x0a.rs b/src/psi/descriptors/x0a.rs
index 29c5657..6cf8ef9 100644
--- a/src/psi/descriptors/x0a.rs
+++ b/src/psi/descriptors/x0a.rs
@@ -42,7 +42,7 @@ impl Desc0A {
         let mut skip = 2;
 
         while slice.len() > skip {
-            let code = StringDVB::from(&slice[skip .. skip + 3]);
+            let code = StringDVB::from_code(&slice[skip .. skip + 3]);
             let audio_type = slice[skip + 3];
             result.items.push(Desc0Ai {
                 code,
diff --git a/src/psi/descriptors/x4d.rs b/src/psi/descriptors/x4d.rs
index 0770025..65a5631 100644
--- a/src/psi/descriptors/x4d.rs
+++ b/src/psi/descriptors/x4d.rs
@@ -49,7 +49,7 @@ impl Desc4D {
         let text_e = text_s + slice[name_e] as usize;
 
         Desc4D {
-            lang: StringDVB::from(&slice[2 .. 5]),
+            lang: StringDVB::from_code(&slice[2 .. 5]),
             name: StringDVB::from(&slice[name_s .. name_e]),
             text: StringDVB::from(&slice[text_s .. text_e]),
         }
diff --git a/src/psi/descriptors/x4e.rs b/src/psi/descriptors/x4e.rs
index 678b0e2..9201ab3 100644
--- a/src/psi/descriptors/x4e.rs
+++ b/src/psi/descriptors/x4e.rs
@@ -59,7 +59,7 @@ impl Desc4E {
         Desc4E {
             number: slice[2] >> 4,
             last_number: slice[2] & 0x0F,
-            lang: StringDVB::from(&slice[3 .. 6]),
+            lang: StringDVB::from_code(&slice[3 .. 6]),
             items: {
                 let mut out: Vec<(StringDVB, StringDVB)> = Vec::new();
                 while items_s < items_e {
diff --git a/src/psi/descriptors/x58.rs b/src/psi/descriptors/x58.rs
index eddf401..724e11a 100644
--- a/src/psi/descriptors/x58.rs
+++ b/src/psi/descriptors/x58.rs
@@ -53,7 +53,7 @@ impl Desc58 {
         let mut skip = 2;
 
         while slice.len() > skip {
-            let country_code = StringDVB::from(&slice[skip .. skip + 3]);
+            let country_code = StringDVB::from_code(&slice[skip .. skip + 3]);
             let region_id = slice[skip + 3] >> 2;
             let offset_polarity = slice[skip + 3] & 0x01;
             let offset = slice[skip + 4 ..].get_u16().from_bcd_time();
diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index 95b46b1..2987d1f 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -175,6 +175,14 @@ impl StringDVB {
         }
     }
 
+    /// Language or country code: three characters without codepage identifier
+    pub(crate) fn from_code(data: &[u8]) -> Self {
+        StringDVB {
+            codepage: ISO6937,
+            data: Vec::from(data),
+        }
+    }
+
     #[inline]
     pub fn get_codepage(&self) -> u8 {
         self.codepage
-- 
2.43.0


From d1bc0b587262a00036d1f7bfb7f0c173969bd333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:29:50 +0000
Subject: [PATCH 33/39] fix: panic on sending delivery descriptors with
 non-decimal digits

Frequencies, positions and symbol rates that are not decimal numbers can
not be written back. Such descriptors are kept as raw data.
---
 src/psi/descriptors/x43.rs | 9 +++++++--
 src/psi/descriptors/x44.rs | 9 +++++++--
 src/psi/utils/bcd.rs       | 6 ++++++
 src/psi/utils/mod.rs       | 1 +
 4 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/psi/descriptors/x43.rs b/src/psi/descriptors/x43.rs
index 8dec5a0..e0bb131 100644
--- a/src/psi/descriptors/x43.rs
+++ b/src/psi/descriptors/x43.rs
@@ -7,7 +7,10 @@
 
 use crate::{
     bytes::Bytes,
-    psi::BCD,
+    psi::{
+        BCD,
+        is_bcd,
+    },
 };
 
 use super::Desc;
@@ -45,7 +48,9 @@ pub struct Desc43 {
 
 impl Desc43 {
     pub fn check(slice: &[u8]) -> bool {
-        slice.len() == MIN_SIZE
+        slice.len() == MIN_SIZE &&
+        is_bcd(&slice[2 .. 8]) &&
+        is_bcd(&slice[9 .. 12])
     }
 
     pub fn parse(slice: &[u8]) -> Self {
diff --git a/src/psi/descriptors/x44.rs b/src/psi/descriptors/x44.rs
index c540d77..d08babd 100644
--- a/src/psi/descriptors/x44.rs
+++ b/src/psi/descriptors/x44.rs
@@ -7,7 +7,10 @@
 
 use crate::{
     bytes::Bytes,
-    psi::BCD,
+    psi::{
+        BCD,
+        is_bcd,
+    },
 };
 
 use super::Desc;
@@ -36,7 +39,9 @@ pub struct Desc44 {
 
 impl Desc44 {
     pub fn check(slice: &[u8]) -> bool {
-        slice.len() == MIN_SIZE
+        slice.len() == MIN_SIZE &&
+        is_bcd(&slice[2 .. 6]) &&
+        is_bcd(&slice[9 .. 12])
     }
 
     pub fn parse(slice: &[u8]) -> Self {
diff --git a/src/psi/utils/bcd.rs b/src/psi/utils/bcd.rs
index 4e1595e..15455cd 100644
--- a/src/psi/utils/bcd.rs
+++ b/src/psi/utils/bcd.rs
@@ -14,6 +14,12 @@ pub trait BCD {
 }
 
 
+/// Checks that all of the data are decimal digits
+pub(crate) fn is_bcd(data: &[u8]) -> bool {
+    data.iter().all(|b| b >> 4 < 10 && b & 0x0F < 10)
+}
+
+
 impl BCD for u8 {
     #[inline]
     fn from_bcd(self) -> Self {
diff --git a/src/psi/utils/mod.rs b/src/psi/utils/mod.rs
index ebe8b90..17184ba 100644
--- a/src/psi/utils/mod.rs
+++ b/src/psi/utils/mod.rs
@@ -13,6 +13,7 @@ pub use bcd::{
     BCD,
     BCDTime,
 };
+pub(crate) use bcd::is_bcd;
 
 mod mjd;
 pub use mjd::{
-- 
2.43.0


From c69ced1f162b28e1eccc617746b5ec43ea158f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:46:50 +0000
Subject: [PATCH 34/39] fix: panic on a schedule with events out of order

The last table id was taken from the last event of the list. If that one
started before the first one the subtraction overflowed.
---
 src/psi/eit.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psi/eit.rs b/src/psi/eit.rs
index 206d45c..1b47cc0 100644
--- a/src/psi/eit.rs
+++ b/src/psi/eit.rs
@@ -205,8 +205,8 @@ impl PsiDemux for Eit {
 
         // Last table id
         let last_table_id = {
-            let last_item = self.items.last().unwrap();
-            let service_duration = last_item.start - midnight;
+            let last_start = self.items.iter().map(|item| item.start).max().unwrap();
+            let service_duration = last_start - midnight;
             let service_segments = service_duration / SEG_DURATION;
             table_id + (service_segments / 32) as u8
         };
-- 
2.43.0


From b04944b355ac2db666304a523e837f0d6e2bd7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:46:50 +0000
Subject: [PATCH 35/39] fix: sections of a full segment numbered as the next
 segment

A segment of the schedule has eight sections. The ninth one took the
number of the following segment, which moved all later events, and
overflowed at the end of the table.
---
 src/psi/eit.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/psi/eit.rs b/src/psi/eit.rs
index 1b47cc0..597c4b0 100644
--- a/src/psi/eit.rs
+++ b/src/psi/eit.rs
@@ -271,6 +271,11 @@ impl PsiDemux for Eit {
             }
 
             if item.size() + psi.buffer.len() >= EIT_SECTION_SIZE {
+                // all sections of the segment are full
+                if current_section % 8 == 7 {
+                    continue;
+                }
+
                 current_section = current_section + 1;
 
                 let mut psi = self.psi_init();
-- 
2.43.0


From 30caec38df810dcd4389d7735d1942fe5efdd5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:46:51 +0000
Subject: [PATCH 36/39] fix: events after the end of the schedule sent in other
 tables

The sixteen tables of a schedule cover 64 days. Later events used the
table ids behind them, and one event with a wrong date gave thousands of
empty sections.
---
 src/psi/eit.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/psi/eit.rs b/src/psi/eit.rs
index 597c4b0..ba57bf3 100644
--- a/src/psi/eit.rs
+++ b/src/psi/eit.rs
@@ -196,6 +196,8 @@ impl PsiDemux for Eit {
 
         const DAY_DURATION: u64 = 24 * 60 * 60;
         const SEG_DURATION: u64 = 3 * 60 * 60;
+        // 16 tables, 32 segments each
+        const SCHEDULE_DURATION: u64 = 16 * 32 * SEG_DURATION;
 
         let table_id = self.table_id & 0xF0;
 
@@ -203,9 +205,12 @@ impl PsiDemux for Eit {
         let first_item = self.items.first().unwrap();
         let mut midnight = first_item.start / DAY_DURATION * DAY_DURATION;
 
+        let schedule_end = midnight + SCHEDULE_DURATION;
+
         // Last table id
         let last_table_id = {
-            let last_start = self.items.iter().map(|item| item.start).max().unwrap();
+            let last_start = self.items.iter().map(|item| item.start)
+                .filter(|start| *start < schedule_end).max().unwrap();
             let service_duration = last_start - midnight;
             let service_segments = service_duration / SEG_DURATION;
             table_id + (service_segments / 32) as u8
@@ -245,6 +250,11 @@ impl PsiDemux for Eit {
         }
 
         for item in &self.items {
+            // out of the schedule
+            if item.start >= schedule_end {
+                continue;
+            }
+
             let psi = psi_list.last_mut().unwrap();
 
             if item.start >= next_midnight {
-- 
2.43.0


From 3d486622f1ed327bc89173c65286331dbb3a0e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:22:12 +0000
Subject: [PATCH 37/39] fix: durations of 24 hours and more were sent modulo a
 day

---
 src/psi/eit.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/psi/eit.rs b/src/psi/eit.rs
index ba57bf3..39c34cb 100644
--- a/src/psi/eit.rs
+++ b/src/psi/eit.rs
@@ -8,6 +8,7 @@
 use crate::{
     bytes::Bytes,
     psi::{
+        BCD,
         BCDTime,
         MJDFrom,
         MJDTo,
@@ -72,7 +73,11 @@ impl EitItem {
         buffer[skip ..].set_u16(self.event_id);
         buffer[skip + 2 ..].set_u16(self.start.to_mjd());
         buffer[skip + 4 ..].set_u24((self.start as u32).to_bcd_time());
-        buffer[skip + 7 ..].set_u24(self.duration.to_bcd_time());
+
+        // duration is not limited to a day
+        let duration = std::cmp::min(self.duration, 100 * 60 * 60 - 1);
+        let hours = u32::from(((duration / 3600) as u8).to_bcd());
+        buffer[skip + 7 ..].set_u24((hours << 16) | (duration % 3600).to_bcd_time());
 
         let flags_10 = set_bits!(8,
             self.status, 3,
-- 
2.43.0


From e61dc1e104725b5298d929b9f48fb521d8eca29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:49:13 +0000
Subject: [PATCH 38/39] fix: packet readers are not handed uninitialised memory
 by the drain

---
 src/reader/drain.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/reader/drain.rs b/src/reader/drain.rs
index 7ac60c6..511c46a 100644
--- a/src/reader/drain.rs
+++ b/src/reader/drain.rs
@@ -41,11 +41,7 @@ impl<R: TsRead> TsDrain<R> {
         TsDrain {
             inner,
 
-            buf: unsafe {
-                let mut v = Vec::with_capacity(ts::PACKET_SIZE);
-                v.set_len(ts::PACKET_SIZE);
-                v.into_boxed_slice()
-            },
+            buf: vec![0; ts::PACKET_SIZE].into_boxed_slice(),
             pos: 0,
         }
     }
-- 
2.43.0


From 2e194d441824dfd7385705782f3c58185f83c6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:45:30 +0000
Subject: [PATCH 39/39] fix: bitrate over less than a millisecond does not
 divide by zero

---
 src/ts/pcr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ts/pcr.rs b/src/ts/pcr.rs
index 7b5793d..d16a265 100644
--- a/src/ts/pcr.rs
+++ b/src/ts/pcr.rs
@@ -140,7 +140,9 @@ pub fn pcr_to_ms(pcr: u64) -> u64 { pcr / PCR_CLOCK_MS }
 
 
 /// Claclulate PCR bitrate
+///
+/// Returns 0 if delta is less than 1ms
 #[inline]
 pub fn pcr_delta_bitrate(delta: u64, bytes: u64) -> u64 {
-    (bytes * 8) / pcr_to_ms(delta)
+    (bytes * 8).checked_div(pcr_to_ms(delta)).unwrap_or(0)
 }
-- 
2.43.0

