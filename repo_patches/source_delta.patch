From c55d6a48f553212f0c65745837d7fee833754cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 01/11] fix: serialize the reference number of
 SimulationIdentifier

serialize() always wrote 0, so the reference number was lost on the wire.
---
 src/common/data_types/simulation_id.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/data_types/simulation_id.rs b/src/common/data_types/simulation_id.rs
index 20347c5..e00fd05 100644
--- a/src/common/data_types/simulation_id.rs
+++ b/src/common/data_types/simulation_id.rs
@@ -28,7 +28,7 @@ impl SimulationIdentifier {
 
     pub fn serialize(&self, buf: &mut BytesMut) {
         self.simulation_address.serialize(buf);
-        buf.put_u16(0u16);
+        buf.put_u16(self.reference_number);
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
-- 
2.43.0


From deb36cdb453fd2d3079bf37c5bee815f79dea1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 02/11] fix: serialize the other parameters of
 DeadReckoningParameters

serialize() always wrote 15 zero octets, so dead_reckoning_other_parameters
was lost on the wire although deserialize() reads it.
---
 src/common/data_types/dead_reckoning_parameters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/data_types/dead_reckoning_parameters.rs b/src/common/data_types/dead_reckoning_parameters.rs
index c13d7ac..ae85a96 100644
--- a/src/common/data_types/dead_reckoning_parameters.rs
+++ b/src/common/data_types/dead_reckoning_parameters.rs
@@ -42,7 +42,7 @@ impl DeadReckoningParameters {
 
     pub fn serialize(&self, buf: &mut BytesMut) {
         buf.put_u8(self.dead_reckoning_algorithm as u8);
-        buf.put_bytes(0u8, 15);
+        buf.put_slice(&self.dead_reckoning_other_parameters);
         self.entity_linear_acceleration.serialize(buf);
         self.entity_angular_velocity.serialize(buf);
     }
-- 
2.43.0


From 45610a61b28bcbbc2bdd9d262126cb1ea7980227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:15 +0000
Subject: [PATCH 03/11] fix: decode and measure VariableDatumRecord as it is
 serialized

deserialize() prefixed the value with as many zero octets as it has octets and
left the padding to the 64-bit boundary in the buffer; field_len() did not
count that padding, so the length field of PDUs carrying such a record was
smaller than the octets written.
---
 src/common/data_types/datum_records.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/common/data_types/datum_records.rs b/src/common/data_types/datum_records.rs
index e257812..8ab0dc5 100644
--- a/src/common/data_types/datum_records.rs
+++ b/src/common/data_types/datum_records.rs
@@ -60,6 +60,12 @@ impl VariableDatumRecord {
         (length_bits as usize).div_ceil(8)
     }
 
+    /// Octets of padding that follow the value up to the next 64-bit boundary
+    const fn padding_bytes(length_bits: u32) -> usize {
+        let pad_bits = (64u32 - (length_bits % 64)) % 64;
+        (pad_bits / 8) as usize
+    }
+
     pub fn serialize(&self, buf: &mut BytesMut) {
         buf.put_u32(self.datum_id);
         buf.put_u32(self.length_bits);
@@ -72,8 +78,7 @@ impl VariableDatumRecord {
             buf.put_u8(self.value[i]);
         }
 
-        let pad_bits = (64u32 - (self.length_bits % 64)) % 64;
-        let pad_bytes = (pad_bits / 8) as usize;
+        let pad_bytes = Self::padding_bytes(self.length_bits);
         if pad_bytes > 0 {
             let zeros = vec![0u8; pad_bytes];
             for z in zeros {
@@ -87,10 +92,11 @@ impl VariableDatumRecord {
         let length_bits = buf.get_u32();
         let value_bytes = Self::bytes_count(length_bits);
 
-        let mut value = vec![0u8; value_bytes];
+        let mut value: Vec<u8> = vec![];
         for _ in 0..value_bytes {
             value.push(buf.get_u8());
         }
+        buf.advance(Self::padding_bytes(length_bits));
 
         Self {
             datum_id,
@@ -114,6 +120,9 @@ impl FieldDeserialize for VariableDatumRecord {
 
 impl FieldLen for VariableDatumRecord {
     fn field_len(&self) -> usize {
-        self.datum_id.field_len() + self.length_bits.field_len() + self.value.field_len()
+        self.datum_id.field_len()
+            + self.length_bits.field_len()
+            + self.value.field_len()
+            + Self::padding_bytes(self.length_bits)
     }
 }
-- 
2.43.0


From 0bafff21c8c070b2131147dd016c0ce8075ab44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:15 +0000
Subject: [PATCH 04/11] fix: read and write the 11 octets of the EntityMarking
 string

serialize() wrote as many octets as the string has although the record is
declared to take 12 octets, and deserialize() consumed none of them and set the
string to the decimal number of octets left in the buffer, so every field that
follows the marking in an Entity State PDU was decoded from the wrong place.
---
 src/common/data_types/entity_marking.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/common/data_types/entity_marking.rs b/src/common/data_types/entity_marking.rs
index 90938f0..c030dc7 100644
--- a/src/common/data_types/entity_marking.rs
+++ b/src/common/data_types/entity_marking.rs
@@ -11,6 +11,9 @@ pub struct EntityMarking {
 }
 
 impl EntityMarking {
+    /// Octets the marking string occupies on the wire, padded with zeros
+    const STRING_LENGTH: usize = 11;
+
     #[must_use]
     pub const fn new(
         entity_marking_character_set: EntityMarkingCharacterSet,
@@ -24,14 +27,21 @@ impl EntityMarking {
 
     pub fn serialize(&self, buf: &mut BytesMut) {
         buf.put_u8(self.entity_marking_character_set as u8);
-        let marking = self.entity_marking_string.clone();
-        buf.put_slice(&marking.into_bytes()[..]);
+        let marking = self.entity_marking_string.as_bytes();
+        for i in 0..Self::STRING_LENGTH {
+            buf.put_u8(if i < marking.len() { marking[i] } else { 0 });
+        }
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
+        let entity_marking_character_set = EntityMarkingCharacterSet::deserialize(buf);
+        let mut marking = [0u8; Self::STRING_LENGTH];
+        buf.copy_to_slice(&mut marking);
         Self {
-            entity_marking_character_set: EntityMarkingCharacterSet::deserialize(buf),
-            entity_marking_string: buf.remaining().to_string(),
+            entity_marking_character_set,
+            entity_marking_string: String::from_utf8_lossy(&marking)
+                .trim_end_matches('\0')
+                .to_string(),
         }
     }
 }
-- 
2.43.0


From ad543dcb863c198beb124e8d2177e6126c893c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:15 +0000
Subject: [PATCH 05/11] fix: no overflow or out-of-bounds index in
 RecordSpecificationElement

The number of octets was computed in 16 bits, which overflows (a panic, or a
wrong count without overflow checks) from 65536 octets on, and serialize()
indexed record_values past its end when it is shorter than that number, while
field_len() counts the octets record_values really has.
---
 src/common/data_types/record_specification_element.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/common/data_types/record_specification_element.rs b/src/common/data_types/record_specification_element.rs
index aa36fa8..7bf4c99 100644
--- a/src/common/data_types/record_specification_element.rs
+++ b/src/common/data_types/record_specification_element.rs
@@ -39,8 +39,7 @@ impl RecordSpecificationElement {
         buf.put_u32(self.record_set_serial_number);
         buf.put_u16(self.record_length);
         buf.put_u16(self.record_count);
-        let num_record_values: usize = (self.record_length * self.record_count).into();
-        for i in 0..num_record_values {
+        for i in 0..self.record_values.len() {
             buf.put_u8(self.record_values[i]);
         }
     }
@@ -50,7 +49,7 @@ impl RecordSpecificationElement {
         let record_set_serial_number = buf.get_u32();
         let record_length = buf.get_u16();
         let record_count = buf.get_u16();
-        let num_record_values = record_length * record_count;
+        let num_record_values = usize::from(record_length) * usize::from(record_count);
         let mut record_values: Vec<u8> = vec![];
         for _ in 0..num_record_values {
             record_values.push(buf.get_u8());
-- 
2.43.0


From 1f4b6aa874ce4085cfaa285e6a8a3de99a1b759d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 06/11] fix: enforce the documented maximum PDU size

calculate_length() and serialize() accepted PDUs of up to 65535 octets although
the error they return for larger ones, and MAX_PDU_SIZE_OCTETS, put the limit
at 8192.
---
 src/pdu_macro.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index 48aa5cf..9cf42c2 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -284,6 +284,12 @@ macro_rules! define_pdu {
                     len += <$ftype as $crate::pdu_macro::FieldLen>::field_len(&self.$field);
                 )*
 
+                if !$crate::common::constants::validate_pdu_size(len) {
+                    return Err($crate::common::dis_error::DISError::pdu_size_exceeded(
+                        len,
+                        $crate::common::constants::MAX_PDU_SIZE_OCTETS,
+                    ));
+                }
                 u16::try_from(len).map_err(|_| $crate::common::dis_error::DISError::PduSizeExceeded {
                     size: len,
                     max_size: $crate::common::constants::MAX_PDU_SIZE_OCTETS,
-- 
2.43.0


From 0f6011f722abcec8dc340f52d01a4992c47ef3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 07/11] fix: report a truncated PDU as BufferUnderflow instead
 of panicking

Buf::get_* panics when the buffer is too short, so deserializing a truncated
datagram took the process down although deserialize() returns a Result and
DISError has a BufferUnderflow variant.
---
 src/pdu_macro.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index 9cf42c2..df84a40 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -250,6 +250,18 @@ macro_rules! define_pdu {
 
         // Body deserializer generated in terms of FieldDeserialize
         impl $name {
+            /// Check that the octets every body of this PDU has are in the buffer: those of a PDU
+            /// whose variable-length fields are empty.
+            fn check_body_remaining<B: bytes::Buf>(buf: &B) -> Result<(), $crate::common::dis_error::DISError> {
+                let required = usize::from($crate::common::pdu::Pdu::calculate_length(&Self::default())?)
+                    .saturating_sub(<$header>::LENGTH);
+                let available = buf.remaining();
+                if available < required {
+                    return Err($crate::common::dis_error::DISError::buffer_underflow(required, available));
+                }
+                Ok(())
+            }
+
             /// Deserialize only the body (fields), leaving header defaulted.
             /// Note: for variable-length arrays/strings the generated code will call
             /// `FieldDeserialize::deserialize_field()`, but for real variable-length fields
@@ -331,6 +343,15 @@ macro_rules! define_pdu {
 
             fn deserialize<B: bytes::Buf>(buf: &mut B) -> Result<Self, $crate::common::dis_error::DISError>
             where Self: Sized {
+                // the getters of `Buf` panic when the buffer is too short
+                let available = buf.remaining();
+                if available < <$header>::LENGTH {
+                    return Err($crate::common::dis_error::DISError::buffer_underflow(
+                        <$header>::LENGTH,
+                        available,
+                    ));
+                }
+
                 // deserialize header using its associated function
                 let header: Self::Header = <Self::Header as $crate::pdu_macro::FieldDeserialize>::deserialize_field(buf);
 
@@ -343,6 +364,7 @@ macro_rules! define_pdu {
                 }
 
                 // read body fields with the generated deserializer
+                Self::check_body_remaining(buf)?;
                 let mut body = Self::deserialize_body(buf);
                 body.header = header;
                 Ok(body)
@@ -350,6 +372,7 @@ macro_rules! define_pdu {
 
             fn deserialize_without_header<B: bytes::Buf>(buf: &mut B, header: Self::Header) -> Result<Self, $crate::common::dis_error::DISError>
             where Self: Sized {
+                Self::check_body_remaining(buf)?;
                 let mut body = Self::deserialize_body(buf);
                 body.header = header;
                 Ok(body)
-- 
2.43.0


From b206b7d64dc732ee30a3ca0faa98093962ff7a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 08/11] fix: reject a header of another PDU type in
 deserialize_without_header

The method documents that it returns an error if the header provided is invalid,
but it accepted any header.
---
 src/pdu_macro.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index df84a40..03ca0c6 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -372,6 +372,13 @@ macro_rules! define_pdu {
 
             fn deserialize_without_header<B: bytes::Buf>(buf: &mut B, header: Self::Header) -> Result<Self, $crate::common::dis_error::DISError>
             where Self: Sized {
+                if header.pdu_type() != $pdu_type {
+                    return Err($crate::common::dis_error::DISError::invalid_header(
+                        format!("Expected PDU type {:?}, got {:?}", $pdu_type, header.pdu_type()),
+                        None,
+                    ));
+                }
+
                 Self::check_body_remaining(buf)?;
                 let mut body = Self::deserialize_body(buf);
                 body.header = header;
-- 
2.43.0


From 17dae5aace628177a5edf6e8a18518558729233d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 09/11] fix: decode the record type of
 VariableTransmitterParameters as the 32 bits it is written as

---
 src/common/data_types/variable_transmitter_parameters.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/data_types/variable_transmitter_parameters.rs b/src/common/data_types/variable_transmitter_parameters.rs
index f6764d2..b3d356c 100644
--- a/src/common/data_types/variable_transmitter_parameters.rs
+++ b/src/common/data_types/variable_transmitter_parameters.rs
@@ -3,6 +3,7 @@
 //
 //     Licensed under the BSD-2-Clause License
 use bytes::{Buf, BufMut, BytesMut};
+use num_traits::FromPrimitive;
 
 use crate::common::enums::VariableParameterRecordType;
 use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
@@ -47,7 +48,8 @@ impl VariableTransmitterParameters {
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
-        let record_type = VariableParameterRecordType::deserialize(buf);
+        let record_type =
+            VariableParameterRecordType::from_u32(buf.get_u32()).unwrap_or_default();
         let record_length = buf.get_u16();
         let mut record_specific_fields: Vec<u8> = vec![];
         for _ in 0..record_length {
-- 
2.43.0


From ff4da2060b7d70aa5217027f3e8f2a85a06a04aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:40 +0000
Subject: [PATCH 10/11] fix: GridDataRecord enumerations are 16 bits wide, as
 they are serialized

---
 src/common/enums.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/common/enums.rs b/src/common/enums.rs
index 2b353bb..d7afc98 100644
--- a/src/common/enums.rs
+++ b/src/common/enums.rs
@@ -9550,13 +9550,13 @@ pub enum GriddedDataSampleType {
 impl GriddedDataSampleType {
     #[must_use]
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
-        Self::from_u8(buf.get_u8()).unwrap_or_else(Self::default)
+        Self::from_u16(buf.get_u16()).unwrap_or_else(Self::default)
     }
 }
 
 impl FieldSerialize for GriddedDataSampleType {
     fn serialize_field(&self, buf: &mut BytesMut) {
-        buf.put_u8(*self as u8);
+        buf.put_u16(*self as u16);
     }
 }
 
@@ -9568,7 +9568,7 @@ impl FieldDeserialize for GriddedDataSampleType {
 
 impl FieldLen for GriddedDataSampleType {
     fn field_len(&self) -> usize {
-        1
+        2
     }
 }
 
@@ -9584,13 +9584,13 @@ pub enum GriddedDataDataRepresentation {
 impl GriddedDataDataRepresentation {
     #[must_use]
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
-        Self::from_u8(buf.get_u8()).unwrap_or_else(Self::default)
+        Self::from_u16(buf.get_u16()).unwrap_or_else(Self::default)
     }
 }
 
 impl FieldSerialize for GriddedDataDataRepresentation {
     fn serialize_field(&self, buf: &mut BytesMut) {
-        buf.put_u8(*self as u8);
+        buf.put_u16(*self as u16);
     }
 }
 
@@ -9602,7 +9602,7 @@ impl FieldDeserialize for GriddedDataDataRepresentation {
 
 impl FieldLen for GriddedDataDataRepresentation {
     fn field_len(&self) -> usize {
-        1
+        2
     }
 }
 
-- 
2.43.0


From d569586b520cbf6f0cf01a63f4a57c11579bba9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 11/11] fix: timestamps count DIS time units, from one reading
 of the clock

---
 src/common/live_entity_pdu_header.rs | 22 +++++++++++-----------
 src/common/pdu_header.rs             | 22 +++++++++++-----------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/common/live_entity_pdu_header.rs b/src/common/live_entity_pdu_header.rs
index 5dad17b..766d679 100644
--- a/src/common/live_entity_pdu_header.rs
+++ b/src/common/live_entity_pdu_header.rs
@@ -116,19 +116,19 @@ impl LiveEntityPduHeader {
         }
     }
 
-    /// Gets the current time in terms of IEEE-1278.1 DIS time units
+    /// Gets the current time in terms of IEEE-1278.1 DIS time units: the time past the hour, in
+    /// units of 3600 / 2^31 seconds
     #[must_use]
-    #[allow(
-        clippy::cast_precision_loss,
-        clippy::cast_possible_truncation,
-        clippy::cast_sign_loss
-    )]
+    #[allow(clippy::cast_possible_truncation)]
     pub fn calculate_dis_timestamp() -> u32 {
-        let minute_curr = u64::from((Utc::now().minute() * 60) * 1_000_000);
-        let second_curr = u64::from(Utc::now().second() * 1_000_000);
-        let nanosecond_curr = u64::from(Utc::now().nanosecond() / 1000);
-        let dis_time = (second_curr + minute_curr + nanosecond_curr) as f32 / 1.68;
-        dis_time as u32
+        const MICROS_PER_HOUR: u64 = 3_600_000_000;
+        const UNITS_PER_HOUR: u64 = 0x8000_0000;
+
+        let now = Utc::now();
+        let micros = u64::from(now.minute() * 60 + now.second()) * 1_000_000
+            + u64::from(now.nanosecond() / 1000);
+        // a leap second may lie past the hour
+        (micros % MICROS_PER_HOUR * UNITS_PER_HOUR / MICROS_PER_HOUR) as u32
     }
 }
 
diff --git a/src/common/pdu_header.rs b/src/common/pdu_header.rs
index 1df3098..5e29586 100644
--- a/src/common/pdu_header.rs
+++ b/src/common/pdu_header.rs
@@ -238,19 +238,19 @@ impl PduHeader {
         }
     }
 
-    /// Gets the current time in terms of IEEE-1278.1 DIS time units
+    /// Gets the current time in terms of IEEE-1278.1 DIS time units: the time past the hour, in
+    /// units of 3600 / 2^31 seconds
     #[must_use]
-    #[allow(
-        clippy::cast_precision_loss,
-        clippy::cast_possible_truncation,
-        clippy::cast_sign_loss
-    )]
+    #[allow(clippy::cast_possible_truncation)]
     pub fn calculate_dis_timestamp() -> u32 {
-        let minute_curr = u64::from((Utc::now().minute() * 60) * 1_000_000);
-        let second_curr = u64::from(Utc::now().second() * 1_000_000);
-        let nanosecond_curr = u64::from(Utc::now().nanosecond() / 1000);
-        let dis_time = (second_curr + minute_curr + nanosecond_curr) as f32 / 1.68;
-        dis_time as u32
+        const MICROS_PER_HOUR: u64 = 3_600_000_000;
+        const UNITS_PER_HOUR: u64 = 0x8000_0000;
+
+        let now = Utc::now();
+        let micros = u64::from(now.minute() * 60 + now.second()) * 1_000_000
+            + u64::from(now.nanosecond() / 1000);
+        // a leap second may lie past the hour
+        (micros % MICROS_PER_HOUR * UNITS_PER_HOUR / MICROS_PER_HOUR) as u32
     }
 
     /// Looks at the PDU type from a raw byte buffer.
-- 
2.43.0

