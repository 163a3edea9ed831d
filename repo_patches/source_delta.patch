From 70a9b174c208d7f13e485312e80c144ecb55cec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 01/12] fix: report the real module type of UR20-4AI-UI-16

---
 src/ur20_ai_ui_generic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ur20_ai_ui_generic.rs b/src/ur20_ai_ui_generic.rs
index 5dc9d9d..03f5589 100644
--- a/src/ur20_ai_ui_generic.rs
+++ b/src/ur20_ai_ui_generic.rs
@@ -94,7 +94,7 @@ impl<Variant: AIVariant> Default for Mod<Variant> {
 
 impl<Variant: AIVariant> Module for Mod<Variant> {
     fn module_type(&self) -> ModuleType {
-        ModuleType::UR20_4AI_UI_12
+        Variant::MODULE_TYPE
     }
 }
 
-- 
2.43.0


From e4844581f854ea06fd0ce1b13709639260a20176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 02/12] fix: round analog output values to the nearest register
 value

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 53feab3..67ec60f 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -65,7 +65,7 @@ pub fn analog_ui_value_to_u16(v: f32, range: &AnalogUIRange, format: &DataFormat
         V2To10 => factor * (v - 2.0) / 8.0,
         Disabled => 0.0,
     };
-    v as i16 as u16
+    v.round() as i16 as u16
 }
 
 pub fn u16_to_analog_ui_value(
-- 
2.43.0


From de4a5b4c0961ec00c562d9ef5563ccd6e16c2728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 03/12] fix: reject offsets outside of the packed process data
 area

---
 src/ur20_fbc_mod_tcp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index ca11b5b..c235584 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -388,7 +388,7 @@ fn prepare_raw_data_to_process(
     data: &[u16],
 ) -> Result<Vec<u16>> {
     let (start, bit) = to_register_address(offset);
-    let start = (start - addr) as usize;
+    let start = start.checked_sub(addr).ok_or(Error::ModuleOffset)? as usize;
     let word_count = {
         let cnt = byte_count / 2;
         if cnt == 0 { 1 } else { cnt }
-- 
2.43.0


From 4b2d2eb73b3f1cdae22261e496d3675b7f945f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 04/12] fix: ignore surplus parameter registers of
 UR20-4AI-TC-DIAG

---
 src/ur20_4ai_tc_diag.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ur20_4ai_tc_diag.rs b/src/ur20_4ai_tc_diag.rs
index 89116d3..1114deb 100644
--- a/src/ur20_4ai_tc_diag.rs
+++ b/src/ur20_4ai_tc_diag.rs
@@ -163,6 +163,7 @@ fn parameters_from_raw_data(data: &[u16]) -> Result<(ModuleParameters, [ChannelP
 
     let channel_parameters = data[1..]
         .chunks_exact(7)
+        .take(4)
         .map(|data| {
             Ok(ChannelParameters {
                 measurement_range: FromPrimitive::from_u16(data[0])
-- 
2.43.0


From 492b5f91e1f067947eb0e53829fa0d98fbe81bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 05/12] fix: check the channel parameters before decoding
 analog output data

---
 src/ur20_4ao_ui_16.rs      | 3 +++
 src/ur20_4ao_ui_16_diag.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/ur20_4ao_ui_16.rs b/src/ur20_4ao_ui_16.rs
index fbdac93..5b1fcc2 100644
--- a/src/ur20_4ao_ui_16.rs
+++ b/src/ur20_4ao_ui_16.rs
@@ -57,6 +57,9 @@ impl ProcessModbusTcpData for Mod {
         if data.len() != 4 {
             return Err(Error::BufferLength);
         }
+        if self.ch_params.len() != 4 {
+            return Err(Error::ChannelParameter);
+        }
         Ok(data
             .iter()
             .enumerate()
diff --git a/src/ur20_4ao_ui_16_diag.rs b/src/ur20_4ao_ui_16_diag.rs
index d2c9e4d..61da20d 100644
--- a/src/ur20_4ao_ui_16_diag.rs
+++ b/src/ur20_4ao_ui_16_diag.rs
@@ -59,6 +59,9 @@ impl ProcessModbusTcpData for Mod {
         if data.len() != 4 {
             return Err(Error::BufferLength);
         }
+        if self.ch_params.len() != 4 {
+            return Err(Error::ChannelParameter);
+        }
         Ok(data
             .iter()
             .enumerate()
-- 
2.43.0


From 20014fa39770f1dc24ed8e6b23876f3d5b0ec633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 06/12] fix: parse the power feed module category

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9398010..50cd38d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -635,6 +635,7 @@ impl FromStr for ModuleCategory {
             "TC"  => TC,
             "COM" => COM,
             "RO"  => RO,
+            "PF"  => PF,
             _ => {
                 return Err(Error::UnknownCategory);
             }
-- 
2.43.0


From a3ac8dce126c03ee0720d483130a5f430f5308c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 07/12] fix: track the transmission counter of each
 communication module

---
 src/ur20_fbc_mod_tcp.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index c235584..5910291 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -82,8 +82,8 @@ pub struct Coupler {
     offsets: Vec<ModuleOffset>,
     /// statefull message processors
     processors: HashMap<usize, ur20_1com_232_485_422::MessageProcessor>,
-    /// Last transmission counter  state
-    last_tx_cnt: usize,
+    /// Last transmission counter state of each communication module
+    last_tx_cnt: HashMap<usize, usize>,
 }
 
 /// Raw config data to create a coupler instance.
@@ -202,7 +202,7 @@ impl Coupler {
             in_values: vec![],
             out_values: vec![],
             write: HashMap::new(),
-            last_tx_cnt: 0,
+            last_tx_cnt: HashMap::new(),
             modules,
             offsets,
             processors,
@@ -269,10 +269,11 @@ impl Coupler {
                         out_bytes.insert(m_nr, ChannelValue::None);
                         in_bytes.insert(m_nr, ChannelValue::None);
 
-                        if !out_v.data.is_empty() && out_v.tx_cnt != self.last_tx_cnt {
+                        let last_tx_cnt = self.last_tx_cnt.entry(m_nr).or_insert(0);
+                        if !out_v.data.is_empty() && out_v.tx_cnt != *last_tx_cnt {
                             out_bytes.insert(m_nr, ChannelValue::Bytes(out_v.data.clone()));
                         }
-                        self.last_tx_cnt = out_v.tx_cnt;
+                        *last_tx_cnt = out_v.tx_cnt;
 
                         if let Some(ChannelValue::Bytes(ref data)) = self.write.remove(&Address {
                             module: m_nr,
-- 
2.43.0


From 9ffc4d08130ebca473527c38c76ba051fd6312f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 08/12] fix: keep all bytes of modules at odd byte addresses

---
 src/ur20_fbc_mod_tcp.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index 5910291..404e387 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -394,7 +394,12 @@ fn prepare_raw_data_to_process(
         let cnt = byte_count / 2;
         if cnt == 0 { 1 } else { cnt }
     };
-    let end = start + word_count;
+    let end = start
+        + match bit {
+            // Data at an odd byte address extends one byte beyond its last word.
+            8 => (byte_count + 1).div_ceil(2),
+            _ => word_count,
+        };
     if end > data.len() {
         return Err(Error::BufferLength);
     }
@@ -402,7 +407,11 @@ fn prepare_raw_data_to_process(
 
     match bit {
         0 => Ok(output.to_vec()),
-        8 => Ok(shift_data(output)),
+        8 => {
+            let mut shifted = shift_data(output);
+            shifted.truncate(word_count);
+            Ok(shifted)
+        }
         _ => Err(Error::ModuleOffset),
     }
 }
@@ -443,6 +452,11 @@ pub fn process_output_values(
                     let shared_high_byte = u16::from(buf[0]) << 8;
                     let word = shared_high_byte | shared_low_byte;
                     out[start] = word;
+                    // The remaining bytes continue in the following words.
+                    let byte_count = m.process_output_byte_count();
+                    if byte_count > 1 {
+                        out.extend_from_slice(&u8_to_u16(&buf[1..byte_count]));
+                    }
                 }
                 _ => {
                     return Err(Error::ModuleOffset);
-- 
2.43.0


From 2350858ef8ff5012524d259115ecc1b3b03ff3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 09/12] fix: do not panic if a module without output data has
 an output offset

---
 src/ur20_fbc_mod_tcp.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index 404e387..a52e0c9 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -447,6 +447,9 @@ pub fn process_output_values(
                     if out.len() != start + 1 {
                         return Err(Error::ModuleOffset);
                     }
+                    if data.is_empty() {
+                        continue;
+                    }
                     let shared_low_byte = out[start] & 0x00FF;
                     let buf = u16_to_u8(&data);
                     let shared_high_byte = u16::from(buf[0]) << 8;
-- 
2.43.0


From 044f038f9b673880c2c4ebf594b95026b209f937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 10/12] fix: do not lose serial data if an output value is
 rejected

---
 src/ur20_fbc_mod_tcp.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index a52e0c9..89bfd1d 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -262,6 +262,23 @@ impl Coupler {
         let mut in_bytes = HashMap::new();
         let mut out_bytes = HashMap::new();
 
+        // Apply and check the values of the stateless modules first:
+        // a rejected value must not advance the message processors.
+        for (m_nr, out_v) in next_out_values.iter_mut().enumerate() {
+            if self.processors.contains_key(&m_nr) {
+                continue;
+            }
+            for (i, out) in out_v.iter_mut().enumerate() {
+                if let Some(v) = self.write.remove(&Address {
+                    module: m_nr,
+                    channel: i,
+                }) {
+                    *out = v;
+                }
+            }
+        }
+        process_output_values(&infos, &next_out_values)?;
+
         for (m_nr, (in_v, out_v)) in self.in_values.iter().zip(&self.out_values).enumerate() {
             if let Some(p) = self.processors.get_mut(&m_nr) {
                 if let ChannelValue::ComRsIn(ref in_v) = in_v[0] {
@@ -290,15 +307,6 @@ impl Coupler {
                         }
                     }
                 }
-            } else {
-                for (i, _) in out_v.iter().enumerate() {
-                    if let Some(v) = self.write.remove(&Address {
-                        module: m_nr,
-                        channel: i,
-                    }) {
-                        next_out_values[m_nr][i] = v;
-                    }
-                }
             }
         }
         for (m_nr, v) in in_bytes {
-- 
2.43.0


From 1c92425717575a7f381b032c694b9b69411c9116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:45 +0000
Subject: [PATCH 11/12] fix: reject output offsets that overlap the preceding
 module

---
 src/ur20_fbc_mod_tcp.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index 89bfd1d..3982829 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -434,9 +434,12 @@ pub fn process_output_values(
     }
 
     let mut out = vec![];
+    // Number of bytes that are already in use.
+    let mut used = 0;
 
     for (i, &(m, offset)) in modules.iter().enumerate() {
         if let Some(out_offset) = offset.output {
+            let byte_count = m.process_output_byte_count();
             let data = m.process_output_values(&values[i])?;
             let (start, bit) = to_register_address(out_offset);
             if start < ADDR_PACKED_PROCESS_OUTPUT_DATA {
@@ -450,6 +453,9 @@ pub fn process_output_values(
                         return Err(Error::ModuleOffset);
                     }
                     out.extend_from_slice(&data);
+                    if byte_count > 0 {
+                        used = 2 * start + byte_count;
+                    }
                 }
                 8 => {
                     if out.len() != start + 1 {
@@ -458,13 +464,17 @@ pub fn process_output_values(
                     if data.is_empty() {
                         continue;
                     }
+                    // The high byte must not belong to a preceding module.
+                    if used != 2 * start + 1 {
+                        return Err(Error::ModuleOffset);
+                    }
+                    used += byte_count;
                     let shared_low_byte = out[start] & 0x00FF;
                     let buf = u16_to_u8(&data);
                     let shared_high_byte = u16::from(buf[0]) << 8;
                     let word = shared_high_byte | shared_low_byte;
                     out[start] = word;
                     // The remaining bytes continue in the following words.
-                    let byte_count = m.process_output_byte_count();
                     if byte_count > 1 {
                         out.extend_from_slice(&u8_to_u16(&buf[1..byte_count]));
                     }
-- 
2.43.0


From 444c7bf3dec76a86516ea43825987651df6817e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 12/12] fix: do not overflow the successor of an invalid
 transmission counter

---
 src/ur20_1com_232_485_422.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/ur20_1com_232_485_422.rs b/src/ur20_1com_232_485_422.rs
index 9b11095..87a47f9 100644
--- a/src/ur20_1com_232_485_422.rs
+++ b/src/ur20_1com_232_485_422.rs
@@ -449,12 +449,8 @@ impl MessageProcessor {
         out_msg
     }
 
-    fn inc_cnt(mut tx_cnt_ack: usize) -> usize {
-        tx_cnt_ack += 1;
-        if tx_cnt_ack > 3 {
-            tx_cnt_ack = 0;
-        }
-        tx_cnt_ack
+    fn inc_cnt(tx_cnt_ack: usize) -> usize {
+        if tx_cnt_ack >= 3 { 0 } else { tx_cnt_ack + 1 }
     }
 }
 
-- 
2.43.0

