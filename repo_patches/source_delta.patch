From d3f63ada0bc6b9014229d72a5c868ee14ae54bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:57 +0000
Subject: [PATCH 01/36] fix: don't truncate the buffer length when checking the
 entry point length

A valid entry point was rejected with BadSize whenever the number of bytes
following it, modulo 256, was smaller than the entry point length.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4b6db4b..d21024f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -225,7 +225,7 @@ impl EntryPoint {
                 );
 
                 lib_ensure!(
-                    sub_buffer.len() as u8 >= entry_point.len(),
+                    sub_buffer.len() >= entry_point.len() as usize,
                     InvalidEntryPointError::BadSize(sub_buffer.len() as u8)
                 );
 
-- 
2.43.0


From b4e5cf3668b2e320979d1acc0ec22dce5ef7284c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:57 +0000
Subject: [PATCH 02/36] fix: bound structure iteration by the provided buffer

When the entry point announces a table longer than the buffer, iteration
read the structure header out of bounds or panicked while slicing.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d21024f..dbad697 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -164,7 +164,8 @@ impl EntryPoint {
     pub fn structures<'buffer>(&self, buffer: &'buffer [u8]) -> Structures<'buffer> {
         Structures {
             smbios_version: self.to_version(),
-            smbios_len: self.smbios_len(),
+            // never trust the announced table length beyond what was actually provided
+            smbios_len: core::cmp::min(self.smbios_len() as usize, buffer.len()) as u32,
             idx: 0u32,
             buffer,
         }
-- 
2.43.0


From f7b492c590b194a986e847ceb33081401145533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:57 +0000
Subject: [PATCH 03/36] fix: reject structures shorter than their own header

A structure header announcing fewer than 4 bytes made the iterator panic.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index dbad697..ae2461d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -531,7 +531,7 @@ impl<'buffer> Structures<'buffer> {
         let_as_struct!(header, HeaderPacked, working);
 
         let strings_idx: u32 = self.idx + header.len as u32;
-        if strings_idx >= self.smbios_len {
+        if (header.len as usize) < mem::size_of::<HeaderPacked>() || strings_idx >= self.smbios_len {
             return Some(Err(MalformedStructureError::BadSize(self.idx, header.len)));
         }
 
-- 
2.43.0


From 2252b3b27720baf1d55f655e9d0eefa44d0b423c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:57 +0000
Subject: [PATCH 04/36] fix: don't overflow on out of range offsets in
 RawStructure::get and get_slice

---
 src/lib.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ae2461d..6d8c55b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -642,15 +642,14 @@ impl<'buffer> RawStructure<'buffer> {
     /// section* it may be ignored to return [None] value of structure field. In this case *Formatted
     /// section* length automatically hide non-existing values
     pub fn get<T: TryFromBytes<'buffer, T>>(&self, offset: usize) -> Result<T, MalformedStructureError> {
-        // Ignore header
-        let start = offset - 4;
-        let size = core::mem::size_of::<T>();
-        let slice = self.data.get(start..(start + size)).unwrap_or(&[]);
+        let slice = self.get_slice(offset, core::mem::size_of::<T>()).unwrap_or(&[]);
         TryFromBytes::try_from_bytes(slice).map_err(MalformedStructureError::InvalidSlice)
     }
     /// Wrapper to self.data.get(..) with header offset correction
     pub fn get_slice(&self, offset: usize, size: usize) -> Option<&'buffer [u8]> {
-        self.data.get(offset - 4..offset - 4 + size)
+        // Ignore header
+        let start = offset.checked_sub(mem::size_of::<HeaderPacked>())?;
+        self.data.get(start..start.checked_add(size)?)
     }
     /// Get *STRING* by offset declared in SMBIOS Reference Specification
     pub fn get_string(&self, offset: usize) -> Result<&'buffer str, MalformedStructureError> {
-- 
2.43.0


From 66283e49b2ecf77bb6dc351ca07de4e4e7c84e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:57 +0000
Subject: [PATCH 05/36] fix: resolve string indices that follow a string which
 is not UTF-8

find_string counted strings with the UTF-8 iterator, which stops at the first
non UTF-8 string, so every later string of the set was reported as missing.
---
 src/lib.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6d8c55b..e9cc2b7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -625,8 +625,10 @@ impl<'buffer> RawStructure<'buffer> {
         if idx == 0 {
             Ok("")
         } else {
-            self.strings()
-                .nth((idx - 1) as usize)
+            let mut strings = self.strings();
+            (1..idx)
+                .try_for_each(|_| strings.next_bytes().map(|_| ()))
+                .and_then(|_| strings.next())
                 .ok_or(MalformedStructureError::InvalidStringIndex(self.info, self.handle, idx))
         }
     }
@@ -668,11 +670,9 @@ impl<'a> StructureStrings<'a> {
     fn new(bytes: &'a [u8]) -> Self {
         Self { bytes, start: 0 }
     }
-}
-impl<'a> Iterator for StructureStrings<'a> {
-    type Item = &'a str;
 
-    fn next(&mut self) -> Option<Self::Item> {
+    /// Raw bytes of the next string, whether or not it is valid UTF-8.
+    fn next_bytes(&mut self) -> Option<&'a [u8]> {
         let slice = self
             .bytes
             .get(self.start..)?
@@ -680,7 +680,14 @@ impl<'a> Iterator for StructureStrings<'a> {
             .nth(0)
             .filter(|slice| !slice.is_empty())?;
         self.start += slice.len() + 1;
-        str::from_utf8(slice).ok()
+        Some(slice)
+    }
+}
+impl<'a> Iterator for StructureStrings<'a> {
+    type Item = &'a str;
+
+    fn next(&mut self) -> Option<Self::Item> {
+        self.next_bytes().and_then(|slice| str::from_utf8(slice).ok())
     }
 }
 
-- 
2.43.0


From db41faa8fba117c0f21085d4d79f6f85fada5f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:31 +0000
Subject: [PATCH 06/36] fix: don't read past a short BIOS Information structure

Decoding read the packed layout of the SMBIOS version unconditionally, so a
formatted section shorter than that layout made it read bytes of the string
set, of the following structure or from outside of the buffer.
The richest layout
that is actually present is now decoded; less than the 2.0 layout is an error.
---
 src/structures/000_bios.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/structures/000_bios.rs b/src/structures/000_bios.rs
index c566d60..723db5f 100644
--- a/src/structures/000_bios.rs
+++ b/src/structures/000_bios.rs
@@ -125,8 +125,18 @@ impl<'buffer> Bios<'buffer> {
             bios_characteristics: u64,
         }
 
+        if structure.data.len() < core::mem::size_of::<BiosPacked2_0>() {
+            return Err(MalformedStructureError::InvalidFormattedSectionLength(
+                structure.info,
+                structure.handle,
+                "minimum of ",
+                core::mem::size_of::<BiosPacked2_0>() as u8,
+            ));
+        }
+
+        let length = structure.data.len();
         match structure.version {
-            v if v >= (3, 1).into() => {
+            v if v >= (3, 1).into() && length >= core::mem::size_of::<BiosPacked3_1>() => {
                 let_as_struct!(packed, BiosPacked3_1, structure.data);
                 Ok(Bios {
                     handle: structure.handle,
@@ -155,7 +165,7 @@ impl<'buffer> Bios<'buffer> {
                     }),
                 })
             }
-            v if v >= (2, 4).into() => {
+            v if v >= (2, 4).into() && length >= core::mem::size_of::<BiosPacked2_4>() => {
                 let_as_struct!(packed, BiosPacked2_4, structure.data);
                 Ok(Bios {
                     handle: structure.handle,
-- 
2.43.0


From 4688a9c0cabf91cef6daaa9e31c2798e59e3f653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:31 +0000
Subject: [PATCH 07/36] fix: don't read past a short System Information
 structure

Decoding read the packed layout of the SMBIOS version unconditionally, so a
formatted section shorter than that layout made it read bytes of the string
set, of the following structure or from outside of the buffer.
The richest layout
that is actually present is now decoded; less than the 2.0 layout is an error.
---
 src/structures/001_system.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/structures/001_system.rs b/src/structures/001_system.rs
index 603bc16..c7d3691 100644
--- a/src/structures/001_system.rs
+++ b/src/structures/001_system.rs
@@ -107,7 +107,17 @@ impl<'buffer> System<'buffer> {
             family: u8,
         }
 
-        if structure.version < (2, 1).into() {
+        if structure.data.len() < core::mem::size_of::<SystemPacked2_0>() {
+            return Err(MalformedStructureError::InvalidFormattedSectionLength(
+                structure.info,
+                structure.handle,
+                "minimum of ",
+                core::mem::size_of::<SystemPacked2_0>() as u8,
+            ));
+        }
+
+        let length = structure.data.len();
+        if structure.version < (2, 1).into() || length < core::mem::size_of::<SystemPacked2_1>() {
             let_as_struct!(packed, SystemPacked2_0, structure.data);
 
             Ok(System {
@@ -121,7 +131,7 @@ impl<'buffer> System<'buffer> {
                 sku: None,
                 family: None,
             })
-        } else if structure.version < (2, 4).into() {
+        } else if structure.version < (2, 4).into() || length < core::mem::size_of::<SystemPacked2_4>() {
             let_as_struct!(packed, SystemPacked2_1, structure.data);
 
             Ok(System {
-- 
2.43.0


From 8a07a2afcbfdc7733ef3e4a6184fd6b5261f12b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:31 +0000
Subject: [PATCH 08/36] fix: don't read past a short Processor Information
 structure

Decoding read the packed layout of the SMBIOS version unconditionally, so a
formatted section shorter than that layout made it read bytes of the string
set, of the following structure or from outside of the buffer.
The richest layout
that is actually present is now decoded; less than the 2.0 layout is an error.
---
 src/structures/004_processor.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/structures/004_processor.rs b/src/structures/004_processor.rs
index 7489fd0..f76b1b7 100644
--- a/src/structures/004_processor.rs
+++ b/src/structures/004_processor.rs
@@ -615,7 +615,17 @@ impl<'buffer> Processor<'buffer> {
             thread_count_2: u16,
         }
 
-        if structure.version < (2, 1).into() {
+        if structure.data.len() < core::mem::size_of::<ProcessorPacked2_0>() {
+            return Err(MalformedStructureError::InvalidFormattedSectionLength(
+                structure.info,
+                structure.handle,
+                "minimum of ",
+                core::mem::size_of::<ProcessorPacked2_0>() as u8,
+            ));
+        }
+
+        let length = structure.data.len();
+        if structure.version < (2, 1).into() || length < core::mem::size_of::<ProcessorPacked2_1>() {
             let_as_struct!(packed, ProcessorPacked2_0, structure.data);
 
             Ok(Processor {
@@ -643,7 +653,7 @@ impl<'buffer> Processor<'buffer> {
                 thread_count: None,
                 processor_characteristics: None,
             })
-        } else if structure.version < (2, 3).into() {
+        } else if structure.version < (2, 3).into() || length < core::mem::size_of::<ProcessorPacked2_3>() {
             let_as_struct!(packed, ProcessorPacked2_1, structure.data);
 
             Ok(Processor {
@@ -671,7 +681,7 @@ impl<'buffer> Processor<'buffer> {
                 thread_count: None,
                 processor_characteristics: None,
             })
-        } else if structure.version < (2, 5).into() {
+        } else if structure.version < (2, 5).into() || length < core::mem::size_of::<ProcessorPacked2_5>() {
             let_as_struct!(packed, ProcessorPacked2_3, structure.data);
 
             Ok(Processor {
@@ -699,7 +709,7 @@ impl<'buffer> Processor<'buffer> {
                 thread_count: None,
                 processor_characteristics: None,
             })
-        } else if structure.version < (2, 6).into() {
+        } else if structure.version < (2, 6).into() || length < core::mem::size_of::<ProcessorPacked2_6>() {
             let_as_struct!(packed, ProcessorPacked2_5, structure.data);
 
             Ok(Processor {
@@ -727,7 +737,7 @@ impl<'buffer> Processor<'buffer> {
                 thread_count: Some(packed.thread_count as u16),
                 processor_characteristics: None,
             })
-        } else if structure.version < (3, 0).into() {
+        } else if structure.version < (3, 0).into() || length < core::mem::size_of::<ProcessorPacked3_0>() {
             let_as_struct!(packed, ProcessorPacked2_6, structure.data);
             // smbios spec specifies 0xFE as an indicator to obtain processor
             // family from the Processor Family 2 field.
-- 
2.43.0


From cdb3cae31ebbca9597720104703c0549262b766e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:31 +0000
Subject: [PATCH 09/36] fix: report the processor characteristics of SMBIOS 2.5
 tables

The field is defined since 2.5 and was decoded but dropped.
---
 src/structures/004_processor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/structures/004_processor.rs b/src/structures/004_processor.rs
index f76b1b7..88c62b1 100644
--- a/src/structures/004_processor.rs
+++ b/src/structures/004_processor.rs
@@ -735,7 +735,9 @@ impl<'buffer> Processor<'buffer> {
                 core_count: Some(packed.core_count as u16),
                 core_enabled: Some(packed.core_enabled as u16),
                 thread_count: Some(packed.thread_count as u16),
-                processor_characteristics: None,
+                processor_characteristics: Some(ProcessorCharacteristics::from_bits_truncate(
+                    packed.processor_characteristics,
+                )),
             })
         } else if structure.version < (3, 0).into() || length < core::mem::size_of::<ProcessorPacked3_0>() {
             let_as_struct!(packed, ProcessorPacked2_6, structure.data);
-- 
2.43.0


From d74a4fe7b3c634baca563a30cbbce0f8c01c90b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:31 +0000
Subject: [PATCH 10/36] fix: decode Cache Information of SMBIOS 2.0, 2.1 and
 3.1 tables

The version boundaries were exclusive: a 2.0 table panicked, and the fields
introduced by 2.1 and 3.1 were dropped for exactly those versions.
---
 src/structures/007_cache.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/structures/007_cache.rs b/src/structures/007_cache.rs
index 7b1c8b7..1d01b21 100644
--- a/src/structures/007_cache.rs
+++ b/src/structures/007_cache.rs
@@ -212,7 +212,7 @@ impl<'buffer> Cache<'buffer> {
         }
 
         match structure.version {
-            v if v > (3, 1).into() => {
+            v if v >= (3, 1).into() => {
                 let_as_struct!(packed, CachePacked3_1, structure.data);
                 Ok(Cache {
                     handle: structure.handle,
@@ -230,7 +230,7 @@ impl<'buffer> Cache<'buffer> {
                     installed_size_2: Some(packed.installed_size_2.into()),
                 })
             }
-            v if v > (2, 1).into() => {
+            v if v >= (2, 1).into() => {
                 let_as_struct!(packed, CachePacked2_1, structure.data);
                 Ok(Cache {
                     handle: structure.handle,
@@ -248,7 +248,7 @@ impl<'buffer> Cache<'buffer> {
                     installed_size_2: None,
                 })
             }
-            v if v > (2, 0).into() => {
+            _ => {
                 let_as_struct!(packed, CachePacked2_0, structure.data);
                 Ok(Cache {
                     handle: structure.handle,
@@ -266,7 +266,6 @@ impl<'buffer> Cache<'buffer> {
                     installed_size_2: None,
                 })
             }
-            _ => unreachable!(),
         }
     }
 }
-- 
2.43.0


From ad3039805ed1332aa4dce357192acea391c516f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:31 +0000
Subject: [PATCH 11/36] fix: don't read past a short Cache Information
 structure

Decoding read the packed layout of the SMBIOS version unconditionally, so a
formatted section shorter than that layout made it read bytes of the string
set, of the following structure or from outside of the buffer.
The richest layout
that is actually present is now decoded; less than the 2.0 layout is an error.
---
 src/structures/007_cache.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/structures/007_cache.rs b/src/structures/007_cache.rs
index 1d01b21..a0c7e4d 100644
--- a/src/structures/007_cache.rs
+++ b/src/structures/007_cache.rs
@@ -211,8 +211,18 @@ impl<'buffer> Cache<'buffer> {
             current_sram_type: u16,
         }
 
+        if structure.data.len() < core::mem::size_of::<CachePacked2_0>() {
+            return Err(MalformedStructureError::InvalidFormattedSectionLength(
+                structure.info,
+                structure.handle,
+                "minimum of ",
+                core::mem::size_of::<CachePacked2_0>() as u8,
+            ));
+        }
+
+        let length = structure.data.len();
         match structure.version {
-            v if v >= (3, 1).into() => {
+            v if v >= (3, 1).into() && length >= core::mem::size_of::<CachePacked3_1>() => {
                 let_as_struct!(packed, CachePacked3_1, structure.data);
                 Ok(Cache {
                     handle: structure.handle,
@@ -230,7 +240,7 @@ impl<'buffer> Cache<'buffer> {
                     installed_size_2: Some(packed.installed_size_2.into()),
                 })
             }
-            v if v >= (2, 1).into() => {
+            v if v >= (2, 1).into() && length >= core::mem::size_of::<CachePacked2_1>() => {
                 let_as_struct!(packed, CachePacked2_1, structure.data);
                 Ok(Cache {
                     handle: structure.handle,
-- 
2.43.0


From 3da4cba560d472d94f5bf168bd1a1e0c58901bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:31 +0000
Subject: [PATCH 12/36] fix: don't read past a short Port Connector Information
 structure

Decoding read the packed layout of the SMBIOS version unconditionally, so a
formatted section shorter than that layout made it read bytes of the string
set, of the following structure or from outside of the buffer.
---
 src/structures/008_port_connector.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/structures/008_port_connector.rs b/src/structures/008_port_connector.rs
index 07f2763..a038ea6 100644
--- a/src/structures/008_port_connector.rs
+++ b/src/structures/008_port_connector.rs
@@ -136,6 +136,16 @@ impl<'a> PortConnector<'a> {
             external_connector_type: u8,
             port_type: u8,
         }
+
+        if structure.data.len() < core::mem::size_of::<PortConnectorPacked>() {
+            return Err(MalformedStructureError::InvalidFormattedSectionLength(
+                structure.info,
+                structure.handle,
+                "minimum of ",
+                core::mem::size_of::<PortConnectorPacked>() as u8,
+            ));
+        }
+
         let_as_struct!(packed, PortConnectorPacked, structure.data);
 
         Ok(PortConnector {
-- 
2.43.0


From 4a99e3d2962d3356b5092efee66eda4485366269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:31 +0000
Subject: [PATCH 13/36] fix: don't read past a short BIOS Language Information
 structure

Decoding read the packed layout of the SMBIOS version unconditionally, so a
formatted section shorter than that layout made it read bytes of the string
set, of the following structure or from outside of the buffer.
---
 src/structures/013_bios_language.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/structures/013_bios_language.rs b/src/structures/013_bios_language.rs
index 4879e47..9ed5cee 100644
--- a/src/structures/013_bios_language.rs
+++ b/src/structures/013_bios_language.rs
@@ -50,6 +50,14 @@ impl<'a> BiosLanguage<'a> {
 
         match structure.version {
             v if v >= (2, 1).into() => {
+                if structure.data.len() < core::mem::size_of::<BiosLanguagePacked2_1>() {
+                    return Err(MalformedStructureError::InvalidFormattedSectionLength(
+                        structure.info,
+                        structure.handle,
+                        "minimum of ",
+                        core::mem::size_of::<BiosLanguagePacked2_1>() as u8,
+                    ));
+                }
                 let_as_struct!(packed, BiosLanguagePacked2_1, structure.data);
                 Ok(BiosLanguage {
                     handle: structure.handle,
@@ -59,6 +67,14 @@ impl<'a> BiosLanguage<'a> {
                 })
             }
             _ => {
+                if structure.data.len() < core::mem::size_of::<BiosLanguagePacked2_0>() {
+                    return Err(MalformedStructureError::InvalidFormattedSectionLength(
+                        structure.info,
+                        structure.handle,
+                        "minimum of ",
+                        core::mem::size_of::<BiosLanguagePacked2_0>() as u8,
+                    ));
+                }
                 let_as_struct!(packed, BiosLanguagePacked2_0, structure.data);
                 Ok(BiosLanguage {
                     handle: structure.handle,
-- 
2.43.0


From 428fe5134f39ee8a86c77d1313bbc0f633578e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:54 +0000
Subject: [PATCH 14/36] fix: don't read past a short Baseboard Information
 structure

Decoding read the packed layout of the SMBIOS version unconditionally, so a
formatted section shorter than that layout made it read bytes of the string
set, of the following structure or from outside of the buffer.
The chassis handle was also reported when only its first byte was present.
---
 src/structures/002_baseboard.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/structures/002_baseboard.rs b/src/structures/002_baseboard.rs
index df02bbd..987a5b6 100644
--- a/src/structures/002_baseboard.rs
+++ b/src/structures/002_baseboard.rs
@@ -117,7 +117,21 @@ impl<'buffer> BaseBoard<'buffer> {
             board_type: u8,
         }
 
-        let_as_struct!(packed, BaseBoardPacked, structure.data);
+        // manufacturer, product, version and serial are mandatory
+        if structure.data.len() < 4 {
+            return Err(MalformedStructureError::InvalidFormattedSectionLength(
+                structure.info,
+                structure.handle,
+                "minimum of ",
+                4,
+            ));
+        }
+
+        let mut padded = [0u8; core::mem::size_of::<BaseBoardPacked>()];
+        for (to, from) in padded.iter_mut().zip(structure.data) {
+            *to = *from;
+        }
+        let_as_struct!(packed, BaseBoardPacked, padded);
 
         let asset = if structure.data.len() > 4 {
             Some(structure.find_string(packed.asset)?)
@@ -134,7 +148,7 @@ impl<'buffer> BaseBoard<'buffer> {
         } else {
             None
         };
-        let chassis_handle = if structure.data.len() > 7 {
+        let chassis_handle = if structure.data.len() > 8 {
             Some(packed.chassis_handle)
         } else {
             None
-- 
2.43.0


From 6d38559d79e788b96c9a8d3116ee6907524cefbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:54 +0000
Subject: [PATCH 15/36] fix: don't overflow the size of the enclosure contained
 elements

count * record_length was computed as u8: it panicked in debug builds, and in
release builds the elements and the SKU number were read from the wrong place.
---
 src/structures/003_enclosure.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/003_enclosure.rs b/src/structures/003_enclosure.rs
index a50ede4..6ba9b49 100644
--- a/src/structures/003_enclosure.rs
+++ b/src/structures/003_enclosure.rs
@@ -421,7 +421,7 @@ impl<'buffer> ContainedElements<'buffer> {
             });
         }
 
-        let length = (count * record_length) as usize;
+        let length = count as usize * record_length as usize;
         let chunks = data.get(0..length)?.chunks(record_length as usize);
         *data = &data[length..];
         Some(Self {
-- 
2.43.0


From 857ccb8151886535a1e72f71cb0e1f56cdb08ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:54 +0000
Subject: [PATCH 16/36] fix: don't read past a short contained element record

A record length of 1 or 2 made every element read past its record, and the last
one past the structure.
---
 src/structures/003_enclosure.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/structures/003_enclosure.rs b/src/structures/003_enclosure.rs
index 6ba9b49..af6f7c8 100644
--- a/src/structures/003_enclosure.rs
+++ b/src/structures/003_enclosure.rs
@@ -468,7 +468,12 @@ impl From<&[u8]> for ContainedElement {
             minimum: u8,
             maximum: u8,
         }
-        let_as_struct!(packed, ContainedElement2_3, data);
+        // missing bytes of a too short record are considered to be zero
+        let mut padded = [0u8; core::mem::size_of::<ContainedElement2_3>()];
+        for (to, from) in padded.iter_mut().zip(data) {
+            *to = *from;
+        }
+        let_as_struct!(packed, ContainedElement2_3, padded);
         ContainedElement {
             type_: packed.type_.into(),
             minimum: packed.minimum,
-- 
2.43.0


From 03c969d6c0595ff4102f9bc10d42868156e5686d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:54 +0000
Subject: [PATCH 17/36] fix: don't read out of bounds when converting a short
 slice to Device

---
 src/structures/009_system_slots.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/structures/009_system_slots.rs b/src/structures/009_system_slots.rs
index 3e32189..aabd344 100644
--- a/src/structures/009_system_slots.rs
+++ b/src/structures/009_system_slots.rs
@@ -797,7 +797,12 @@ impl From<u8> for SlotCharacteristics2 {
 
 impl<'a> From<&'a [u8]> for Device {
     fn from(data: &'a [u8]) -> Device {
-        let_as_struct!(packed, DevicePacked, data);
+        // missing bytes of a too short group are considered to be zero
+        let mut padded = [0u8; core::mem::size_of::<DevicePacked>()];
+        for (to, from) in padded.iter_mut().zip(data) {
+            *to = *from;
+        }
+        let_as_struct!(packed, DevicePacked, padded);
         Device {
             segment_group_number: packed.segment_group_number,
             bus_number: packed.bus_number,
-- 
2.43.0


From aad74938c36b745655daf4d197fad6e0ebc6cc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:54 +0000
Subject: [PATCH 18/36] fix: decode the U.2 slot types

Slot types 1Fh, 20h, 24h and 25h are "PCI Express Gen n SFF-8639 (U.2)".
---
 src/structures/009_system_slots.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/structures/009_system_slots.rs b/src/structures/009_system_slots.rs
index aabd344..72e5b24 100644
--- a/src/structures/009_system_slots.rs
+++ b/src/structures/009_system_slots.rs
@@ -437,13 +437,13 @@ impl From<u8> for SlotType {
             0x1C => SlotType::MxmType4,
             0x1D => SlotType::Mxm3TypeA,
             0x1E => SlotType::Mxm3TypeB,
-            0x1F => SlotType::PciExpressGen2,
-            0x20 => SlotType::PciExpressGen3,
+            0x1F => SlotType::U2PciExpressGen2,
+            0x20 => SlotType::U2PciExpressGen3,
             0x21 => SlotType::PciExpressMini52pin1,
             0x22 => SlotType::PciExpressMini52pin2,
             0x23 => SlotType::PciExpressMini76pin,
-            0x24 => SlotType::PciExpressGen4,
-            0x25 => SlotType::PciExpressGen5,
+            0x24 => SlotType::U2PciExpressGen4,
+            0x25 => SlotType::U2PciExpressGen5,
             0x26 => SlotType::OcpNic3Small,
             0x27 => SlotType::OcpNic3Large,
             0x28 => SlotType::OcpNicPriorTo3,
-- 
2.43.0


From 0ba2a151249b3de903acfd3b58c0fb560bbc5f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:54 +0000
Subject: [PATCH 19/36] fix: display slot pitch in units of 1/100 millimeter

---
 src/structures/009_system_slots.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/009_system_slots.rs b/src/structures/009_system_slots.rs
index 72e5b24..e3f8ac9 100644
--- a/src/structures/009_system_slots.rs
+++ b/src/structures/009_system_slots.rs
@@ -882,7 +882,7 @@ impl fmt::Display for SlotPitch {
         if self.0 == 0 {
             write!(f, "Not given or is unknown")
         } else {
-            write!(f, "{:.1} mm", (self.0 as f32) / 10.0)
+            write!(f, "{:.2} mm", (self.0 as f32) / 100.0)
         }
     }
 }
-- 
2.43.0


From 04f04dc99f70ac3205f745635899606787f6a52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:54 +0000
Subject: [PATCH 20/36] fix: don't panic when converting a ROM size of 16MB or
 greater

Before SMBIOS 3.1 there is no extended size, and units 2 and 3 are reserved.
---
 src/structures/000_bios.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/structures/000_bios.rs b/src/structures/000_bios.rs
index 723db5f..bd6100d 100644
--- a/src/structures/000_bios.rs
+++ b/src/structures/000_bios.rs
@@ -335,10 +335,12 @@ impl From<RomSize> for u64 {
             match unit {
                 0b00 => size << 20,
                 0b01 => size << 30,
-                _ => unimplemented!(),
+                // reserved unit, all we know is 16MB or greater
+                _ => 16 << 20,
             }
         } else {
-            unreachable!();
+            // no extended size, all we know is 16MB or greater
+            16 << 20
         }
     }
 }
-- 
2.43.0


From a8c3ff2948013ad466bfabf2e04ab7be76923257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:54 +0000
Subject: [PATCH 21/36] fix: don't panic in the public cache configuration
 field conversions

---
 src/structures/007_cache.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/structures/007_cache.rs b/src/structures/007_cache.rs
index a0c7e4d..4cea671 100644
--- a/src/structures/007_cache.rs
+++ b/src/structures/007_cache.rs
@@ -313,7 +313,7 @@ impl CacheSize {
 
 impl From<u16> for CacheLevel {
     fn from(word: u16) -> CacheLevel {
-        match word {
+        match word & 0b111 {
             0 => CacheLevel::L1,
             1 => CacheLevel::L2,
             2 => CacheLevel::L3,
@@ -321,8 +321,7 @@ impl From<u16> for CacheLevel {
             4 => CacheLevel::L5,
             5 => CacheLevel::L6,
             6 => CacheLevel::L7,
-            7 => CacheLevel::L8,
-            _ => unreachable!(),
+            _ => CacheLevel::L8,
         }
     }
 }
@@ -343,12 +342,11 @@ impl fmt::Display for CacheLevel {
 
 impl From<u16> for CacheLocation {
     fn from(word: u16) -> CacheLocation {
-        match word {
+        match word & 0b11 {
             0 => CacheLocation::Internal,
             1 => CacheLocation::External,
             2 => CacheLocation::Reserved,
-            3 => CacheLocation::Unknown,
-            _ => unreachable!(),
+            _ => CacheLocation::Unknown,
         }
     }
 }
@@ -365,12 +363,11 @@ impl fmt::Display for CacheLocation {
 
 impl From<u16> for CacheOperationalMode {
     fn from(word: u16) -> CacheOperationalMode {
-        match word {
+        match word & 0b11 {
             0 => CacheOperationalMode::WriteThrough,
             1 => CacheOperationalMode::WriteBack,
             2 => CacheOperationalMode::ValuesWithMemoryAddress,
-            3 => CacheOperationalMode::Unknown,
-            _ => unreachable!(),
+            _ => CacheOperationalMode::Unknown,
         }
     }
 }
-- 
2.43.0


From a6184836bf9cc777493c0d851ba115836064bada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:34 +0000
Subject: [PATCH 22/36] fix: terminate the installable languages iterator after
 255 strings

The one-based index overflowed: a panic in debug builds, an endless iterator in
release builds.
---
 src/structures/013_bios_language.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/structures/013_bios_language.rs b/src/structures/013_bios_language.rs
index 9ed5cee..23012d6 100644
--- a/src/structures/013_bios_language.rs
+++ b/src/structures/013_bios_language.rs
@@ -97,7 +97,11 @@ impl<'a> Iterator for InstallableLanguages<'a> {
     type Item = &'a str;
     fn next(&mut self) -> Option<Self::Item> {
         let index = self.index;
-        self.index += 1;
+        if index == 0 {
+            // all of the possible string numbers are exhausted
+            return None;
+        }
+        self.index = index.wrapping_add(1);
         self.structure.find_string(index).ok()
     }
 }
-- 
2.43.0


From be6f2d47b5e331ace21cccf15746513326265b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:34 +0000
Subject: [PATCH 23/36] fix: don't panic on a Group Associations structure
 without a group name

---
 src/structures/014_group_associations.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/structures/014_group_associations.rs b/src/structures/014_group_associations.rs
index e78e9f7..1393f4e 100644
--- a/src/structures/014_group_associations.rs
+++ b/src/structures/014_group_associations.rs
@@ -41,15 +41,15 @@ pub struct GroupItem {
 impl<'a> GroupAssociations<'a> {
     pub(crate) fn try_from(structure: RawStructure<'a>) -> Result<Self, MalformedStructureError> {
         let handle = structure.handle;
-        let slice =
-            structure
-                .get_slice(0x05, structure.length as usize - 0x05)
-                .ok_or(InvalidFormattedSectionLength(
-                    InfoType::GroupAssociations,
-                    handle,
-                    "",
-                    structure.length,
-                ))?;
+        let slice = (structure.length as usize)
+            .checked_sub(0x05)
+            .and_then(|size| structure.get_slice(0x05, size))
+            .ok_or(InvalidFormattedSectionLength(
+                InfoType::GroupAssociations,
+                handle,
+                "minimum of ",
+                0x05,
+            ))?;
         Ok(GroupAssociations {
             handle,
             group_name: structure.get_string(0x04)?,
-- 
2.43.0


From fb0ef8bf709e441befe5d3f9dab5788818622460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:34 +0000
Subject: [PATCH 24/36] fix: don't panic on event log type descriptors of zero
 length

---
 src/structures/015_system_event_log/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/structures/015_system_event_log/mod.rs b/src/structures/015_system_event_log/mod.rs
index 0c8711b..36de395 100644
--- a/src/structures/015_system_event_log/mod.rs
+++ b/src/structures/015_system_event_log/mod.rs
@@ -356,7 +356,8 @@ impl fmt::Display for LogHeaderFormat {
 
 impl<'a> SupportedEventLogTypeDescriptors<'a> {
     fn new(data: &'a [u8], size: usize) -> Self {
-        Self(data.chunks(size))
+        // `chunks` panics on a zero size, `data` is empty in this case
+        Self(data.chunks(size.max(1)))
     }
 }
 impl PartialEq for SupportedEventLogTypeDescriptors<'_> {
-- 
2.43.0


From b74222fa12b4f0976361e0b9241b81af61020ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:34 +0000
Subject: [PATCH 25/36] fix: don't panic on a short Physical Memory Array
 structure

---
 src/structures/016_physical_memory_array.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/structures/016_physical_memory_array.rs b/src/structures/016_physical_memory_array.rs
index c446863..00df125 100644
--- a/src/structures/016_physical_memory_array.rs
+++ b/src/structures/016_physical_memory_array.rs
@@ -200,11 +200,11 @@ impl PhysicalMemoryArray {
         let mut mem_pointer = 0;
         if structure.version > (2, 1).into() {
             pma.handle = structure.handle;
-            pma.location = MemoryArrayLocation::from(structure.data[mem_pointer]);
+            pma.location = MemoryArrayLocation::from(structure.get::<u8>(mem_pointer + 4)?);
             mem_pointer += 1;
-            pma.r#use = MemoryArrayUse::from(structure.data[mem_pointer]);
+            pma.r#use = MemoryArrayUse::from(structure.get::<u8>(mem_pointer + 4)?);
             mem_pointer += 1;
-            pma.memory_error_correction = MemoryArrayErrorCorrectionTypes::from(structure.data[mem_pointer]);
+            pma.memory_error_correction = MemoryArrayErrorCorrectionTypes::from(structure.get::<u8>(mem_pointer + 4)?);
             mem_pointer += 1;
             pma.maximum_capacity = get_optional_dword(&mut mem_pointer, structure.data, 0x80000000)?;
             pma.memory_error_information_handle = get_optional_word(&mut mem_pointer, structure.data, 0xFFFE)?;
@@ -250,7 +250,8 @@ fn get_optional_word(pointer: &mut usize, data: &[u8], none_val: u16) -> Result<
 
 fn get_word(pointer: &mut usize, data: &[u8]) -> Result<u16, MalformedStructureError> {
     let word = u16::from_le_bytes(
-        data[*pointer..(*pointer + 2)]
+        data.get(*pointer..(*pointer + 2))
+            .unwrap_or(&[])
             .try_into()
             .map_err(MalformedStructureError::InvalidSlice)?,
     );
@@ -260,7 +261,8 @@ fn get_word(pointer: &mut usize, data: &[u8]) -> Result<u16, MalformedStructureE
 
 fn get_dword(pointer: &mut usize, data: &[u8]) -> Result<u32, MalformedStructureError> {
     let dword = u32::from_le_bytes(
-        data[*pointer..(*pointer + 4)]
+        data.get(*pointer..(*pointer + 4))
+            .unwrap_or(&[])
             .try_into()
             .map_err(MalformedStructureError::InvalidSlice)?,
     );
@@ -270,7 +272,8 @@ fn get_dword(pointer: &mut usize, data: &[u8]) -> Result<u32, MalformedStructure
 
 fn get_qword(pointer: &mut usize, data: &[u8]) -> Result<u64, MalformedStructureError> {
     let qword = u64::from_le_bytes(
-        data[*pointer..(*pointer + 8)]
+        data.get(*pointer..(*pointer + 8))
+            .unwrap_or(&[])
             .try_into()
             .map_err(MalformedStructureError::InvalidSlice)?,
     );
-- 
2.43.0


From 4421463901a9e46f425123d894f46d1871e32a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:34 +0000
Subject: [PATCH 26/36] fix: decode Physical Memory Array of SMBIOS 2.1 and 2.7
 tables

The version boundaries were exclusive, so a 2.1 table was decoded to default
values and the extended capacity of a 2.7 table was dropped. The handle is part
of the structure header and is present in any version.
---
 src/structures/016_physical_memory_array.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/structures/016_physical_memory_array.rs b/src/structures/016_physical_memory_array.rs
index 00df125..6623c58 100644
--- a/src/structures/016_physical_memory_array.rs
+++ b/src/structures/016_physical_memory_array.rs
@@ -196,10 +196,12 @@ pub struct PhysicalMemoryArray {
 
 impl PhysicalMemoryArray {
     pub(crate) fn try_from(structure: RawStructure) -> Result<Self, MalformedStructureError> {
-        let mut pma = PhysicalMemoryArray::default();
+        let mut pma = PhysicalMemoryArray {
+            handle: structure.handle,
+            ..Default::default()
+        };
         let mut mem_pointer = 0;
-        if structure.version > (2, 1).into() {
-            pma.handle = structure.handle;
+        if structure.version >= (2, 1).into() {
             pma.location = MemoryArrayLocation::from(structure.get::<u8>(mem_pointer + 4)?);
             mem_pointer += 1;
             pma.r#use = MemoryArrayUse::from(structure.get::<u8>(mem_pointer + 4)?);
@@ -210,7 +212,7 @@ impl PhysicalMemoryArray {
             pma.memory_error_information_handle = get_optional_word(&mut mem_pointer, structure.data, 0xFFFE)?;
             pma.number_of_memory_devices = get_word(&mut mem_pointer, structure.data)?;
         }
-        if structure.version > (2, 7).into() {
+        if structure.version >= (2, 7).into() {
             pma.extended_maximum_capacity = if pma.maximum_capacity.is_none() {
                 get_optional_qword(&mut mem_pointer, structure.data, 0)?
             } else {
-- 
2.43.0


From ba90024d8eab7828cf00706df80c501c98ad3764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:34 +0000
Subject: [PATCH 27/36] fix: decode the memory device form factor codes as
 specified

Codes 1 to 8 were off by one, and 0 is not a defined form factor.
---
 src/structures/017_memory_device.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/structures/017_memory_device.rs b/src/structures/017_memory_device.rs
index 41cea72..1774b77 100644
--- a/src/structures/017_memory_device.rs
+++ b/src/structures/017_memory_device.rs
@@ -122,15 +122,14 @@ pub enum FormFactor {
 impl From<u8> for FormFactor {
     fn from(_type: u8) -> FormFactor {
         match _type {
-            0 => FormFactor::Other,
-            1 => FormFactor::Unknown,
-            2 => FormFactor::Simm,
-            3 => FormFactor::Sip,
-            4 => FormFactor::Chip,
-            5 => FormFactor::Dip,
-            6 => FormFactor::Zip,
-            7 => FormFactor::ProprietaryCard,
-            8 => FormFactor::Dimm,
+            1 => FormFactor::Other,
+            2 => FormFactor::Unknown,
+            3 => FormFactor::Simm,
+            4 => FormFactor::Sip,
+            5 => FormFactor::Chip,
+            6 => FormFactor::Dip,
+            7 => FormFactor::Zip,
+            8 => FormFactor::ProprietaryCard,
             9 => FormFactor::Dimm,
             10 => FormFactor::Tsop,
             11 => FormFactor::RowOfChips,
-- 
2.43.0


From 6a4fcc966b75aa70b1b91863d20b7429175d6b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:34 +0000
Subject: [PATCH 28/36] fix: decode Memory Device structures of SMBIOS 2.1 to
 2.6 tables

The minimum length check lets 2.1 structures in, but the fields introduced by
2.3, 2.6 and 2.7 were mandatory, so these tables were rejected as malformed.
---
 src/structures/017_memory_device.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/structures/017_memory_device.rs b/src/structures/017_memory_device.rs
index 1774b77..f38d862 100644
--- a/src/structures/017_memory_device.rs
+++ b/src/structures/017_memory_device.rs
@@ -389,6 +389,12 @@ impl<'a> MemoryDevice<'a> {
             ));
         }
 
+        // strings defined by later versions of the spec are empty when not present
+        let optional_string = |offset| match structure.get::<u8>(offset) {
+            Ok(index) => structure.find_string(index),
+            Err(_) => Ok(""),
+        };
+
         Ok(MemoryDevice {
             handle,
             physical_memory_handle: structure.get::<u16>(0x04)?,
@@ -403,12 +409,12 @@ impl<'a> MemoryDevice<'a> {
             memory_type: structure.get::<u8>(0x12)?.into(),
             type_detail: Detail::from_bits_truncate(structure.get::<u16>(0x13)?),
             speed: structure.get::<u16>(0x15).ok().filter(|v| v != &0x0000),
-            manufacturer: structure.get_string(0x17)?,
-            serial: structure.get_string(0x18)?,
-            asset_tag: structure.get_string(0x19)?,
-            part_number: structure.get_string(0x1A)?,
-            attributes: structure.get::<u8>(0x1B)?,
-            extended_size: structure.get::<u32>(0x1C)?,
+            manufacturer: optional_string(0x17)?,
+            serial: optional_string(0x18)?,
+            asset_tag: optional_string(0x19)?,
+            part_number: optional_string(0x1A)?,
+            attributes: structure.get::<u8>(0x1B).unwrap_or(0),
+            extended_size: structure.get::<u32>(0x1C).unwrap_or(0),
             configured_memory_speed: structure.get::<u16>(0x20).ok().filter(|v| v != &0x0000),
             minimum_voltage: structure.get::<u16>(0x22).ok().filter(|v| v != &0x0000),
             maximum_voltage: structure.get::<u16>(0x24).ok().filter(|v| v != &0x0000),
-- 
2.43.0


From a0b4e99895bab1e1df616fadf2ad0d28e33721d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:34 +0000
Subject: [PATCH 29/36] fix: don't overflow the battery design capacity

---
 src/structures/022_portable_battery.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/022_portable_battery.rs b/src/structures/022_portable_battery.rs
index c1d4600..21676a5 100644
--- a/src/structures/022_portable_battery.rs
+++ b/src/structures/022_portable_battery.rs
@@ -236,7 +236,7 @@ impl From<DesignCapacity> for u64 {
     fn from(dc: DesignCapacity) -> Self {
         match dc {
             DesignCapacity::Unknown => 0,
-            DesignCapacity::Data { value, multiplier } => (value * multiplier as u16).into(),
+            DesignCapacity::Data { value, multiplier } => value as u64 * multiplier as u64,
         }
     }
 }
-- 
2.43.0


From 094d20678ca319b3e75d7607ca1343bea3b70eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:34 +0000
Subject: [PATCH 30/36] fix: range of a single reserved bit that follows
 another reserved group

---
 src/bitfield.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bitfield.rs b/src/bitfield.rs
index 9272f3a..80b78b9 100644
--- a/src/bitfield.rs
+++ b/src/bitfield.rs
@@ -291,7 +291,7 @@ impl<'a, T> Reserved<'a, T> {
 impl<'a, T: Into<u128> + Copy + fmt::Debug> Iterator for Reserved<'a, T> {
     type Item = ReservedRange<'a>;
     fn next(&mut self) -> Option<Self::Item> {
-        let mut end = 0;
+        let mut end = self.start;
         for Flag {
             position: Position(p),
             type_,
-- 
2.43.0


From d98d08057fc02b353ec8b18edfdcd1a3116a1a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:34 +0000
Subject: [PATCH 31/36] fix: don't panic when iterating a bit field without a
 complete layout

The layout of the BitField trait defaults to an empty one.
---
 src/bitfield.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bitfield.rs b/src/bitfield.rs
index 80b78b9..0ddb9a8 100644
--- a/src/bitfield.rs
+++ b/src/bitfield.rs
@@ -188,7 +188,7 @@ impl<'a, T: Into<u128> + Copy> Iterator for Iter<'a, T> {
             Some(Flag {
                 position: Position(p),
                 is_set,
-                type_: self.layout[p],
+                type_: self.layout.get(p).copied().unwrap_or_default(),
             })
         }
     }
-- 
2.43.0


From a0a48a8b017be785ae61d90299c7330bf8ec84fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:54 +0000
Subject: [PATCH 32/36] fix: report the first BIOS characteristics extension
 byte since 2.1

It is documented to be available for version 2.1 and later, but was dropped
before 2.4.
---
 src/structures/000_bios.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/structures/000_bios.rs b/src/structures/000_bios.rs
index bd6100d..24bf993 100644
--- a/src/structures/000_bios.rs
+++ b/src/structures/000_bios.rs
@@ -207,7 +207,11 @@ impl<'buffer> Bios<'buffer> {
                         extended: None,
                     },
                     bios_characteristics: Characteristics(packed.bios_characteristics),
-                    bios_characteristics_exttension_1: None,
+                    bios_characteristics_exttension_1: structure
+                        .get::<u8>(0x12)
+                        .ok()
+                        .filter(|_| structure.version >= (2, 1).into())
+                        .map(CharacteristicsExtension1),
                     bios_characteristics_exttension_2: None,
                     bios_revision: None,
                     firmware_revision: None,
-- 
2.43.0


From 2adac00c2485576b7860f861ed44ef407af09d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:27 +0000
Subject: [PATCH 33/36] fix: report the minimum formatted section length
 including the header

The other structures report the length as it is encoded in the header, and
'should be minimum of 14 bytes' for a BIOS Information structure of 16 bytes
contradicts the very structure it rejects.
---
 src/structures/000_bios.rs           | 4 ++--
 src/structures/001_system.rs         | 4 ++--
 src/structures/002_baseboard.rs      | 2 +-
 src/structures/003_enclosure.rs      | 2 +-
 src/structures/004_processor.rs      | 4 ++--
 src/structures/007_cache.rs          | 4 ++--
 src/structures/008_port_connector.rs | 3 ++-
 src/structures/013_bios_language.rs  | 6 +++---
 8 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/structures/000_bios.rs b/src/structures/000_bios.rs
index 24bf993..56d5865 100644
--- a/src/structures/000_bios.rs
+++ b/src/structures/000_bios.rs
@@ -5,7 +5,7 @@
 use core::fmt;
 
 use crate::bitfield::{BitField, FlagType, Layout};
-use crate::{MalformedStructureError, RawStructure};
+use crate::{HeaderPacked, MalformedStructureError, RawStructure};
 
 /// BIOS Information
 #[derive(Copy, Clone, Debug, Eq, Hash, PartialEq, Default)]
@@ -130,7 +130,7 @@ impl<'buffer> Bios<'buffer> {
                 structure.info,
                 structure.handle,
                 "minimum of ",
-                core::mem::size_of::<BiosPacked2_0>() as u8,
+                (core::mem::size_of::<HeaderPacked>() + core::mem::size_of::<BiosPacked2_0>()) as u8,
             ));
         }
 
diff --git a/src/structures/001_system.rs b/src/structures/001_system.rs
index c7d3691..dd49f83 100644
--- a/src/structures/001_system.rs
+++ b/src/structures/001_system.rs
@@ -5,7 +5,7 @@
 //! associated with a single system instance and contains one and only one System Information
 //! (Type 1) structure.
 
-use crate::{MalformedStructureError, RawStructure};
+use crate::{HeaderPacked, MalformedStructureError, RawStructure};
 
 /// The wakeup type defined in the SMBIOS specification.
 #[allow(non_camel_case_types)]
@@ -112,7 +112,7 @@ impl<'buffer> System<'buffer> {
                 structure.info,
                 structure.handle,
                 "minimum of ",
-                core::mem::size_of::<SystemPacked2_0>() as u8,
+                (core::mem::size_of::<HeaderPacked>() + core::mem::size_of::<SystemPacked2_0>()) as u8,
             ));
         }
 
diff --git a/src/structures/002_baseboard.rs b/src/structures/002_baseboard.rs
index 987a5b6..ce63997 100644
--- a/src/structures/002_baseboard.rs
+++ b/src/structures/002_baseboard.rs
@@ -123,7 +123,7 @@ impl<'buffer> BaseBoard<'buffer> {
                 structure.info,
                 structure.handle,
                 "minimum of ",
-                4,
+                8,
             ));
         }
 
diff --git a/src/structures/003_enclosure.rs b/src/structures/003_enclosure.rs
index af6f7c8..225eb8c 100644
--- a/src/structures/003_enclosure.rs
+++ b/src/structures/003_enclosure.rs
@@ -197,7 +197,7 @@ impl<'buffer> Enclosure<'buffer> {
                 structure.info,
                 structure.handle,
                 "minimum of ",
-                core::mem::size_of::<EnclosurePacked2_0>() as u8,
+                (core::mem::size_of::<HeaderPacked>() + core::mem::size_of::<EnclosurePacked2_0>()) as u8,
             ));
         }
 
diff --git a/src/structures/004_processor.rs b/src/structures/004_processor.rs
index 88c62b1..90e7902 100644
--- a/src/structures/004_processor.rs
+++ b/src/structures/004_processor.rs
@@ -10,7 +10,7 @@ use core::fmt;
 
 use bitflags::bitflags;
 
-use crate::{MalformedStructureError, RawStructure};
+use crate::{HeaderPacked, MalformedStructureError, RawStructure};
 
 /// The processor types defined in the SMBIOS specification.
 #[allow(non_camel_case_types)]
@@ -620,7 +620,7 @@ impl<'buffer> Processor<'buffer> {
                 structure.info,
                 structure.handle,
                 "minimum of ",
-                core::mem::size_of::<ProcessorPacked2_0>() as u8,
+                (core::mem::size_of::<HeaderPacked>() + core::mem::size_of::<ProcessorPacked2_0>()) as u8,
             ));
         }
 
diff --git a/src/structures/007_cache.rs b/src/structures/007_cache.rs
index 4cea671..c89c431 100644
--- a/src/structures/007_cache.rs
+++ b/src/structures/007_cache.rs
@@ -9,7 +9,7 @@ use core::fmt;
 
 use bitflags::bitflags;
 
-use crate::{MalformedStructureError, RawStructure};
+use crate::{HeaderPacked, MalformedStructureError, RawStructure};
 
 /// The `Cache Information` table defined in the SMBIOS specification.
 ///
@@ -216,7 +216,7 @@ impl<'buffer> Cache<'buffer> {
                 structure.info,
                 structure.handle,
                 "minimum of ",
-                core::mem::size_of::<CachePacked2_0>() as u8,
+                (core::mem::size_of::<HeaderPacked>() + core::mem::size_of::<CachePacked2_0>()) as u8,
             ));
         }
 
diff --git a/src/structures/008_port_connector.rs b/src/structures/008_port_connector.rs
index a038ea6..89740a1 100644
--- a/src/structures/008_port_connector.rs
+++ b/src/structures/008_port_connector.rs
@@ -7,6 +7,7 @@
 use core::fmt;
 
 use crate::{
+    HeaderPacked,
     MalformedStructureError::{self},
     RawStructure,
 };
@@ -142,7 +143,7 @@ impl<'a> PortConnector<'a> {
                 structure.info,
                 structure.handle,
                 "minimum of ",
-                core::mem::size_of::<PortConnectorPacked>() as u8,
+                (core::mem::size_of::<HeaderPacked>() + core::mem::size_of::<PortConnectorPacked>()) as u8,
             ));
         }
 
diff --git a/src/structures/013_bios_language.rs b/src/structures/013_bios_language.rs
index 23012d6..daf52f6 100644
--- a/src/structures/013_bios_language.rs
+++ b/src/structures/013_bios_language.rs
@@ -3,7 +3,7 @@
 //! The information in this structure defines the installable language attributes of the BIOS.
 
 use crate::bitfield::{BitField, FlagType, Layout};
-use crate::{MalformedStructureError, RawStructure};
+use crate::{HeaderPacked, MalformedStructureError, RawStructure};
 
 /// The `BIOS Language Information` table defined in the SMBIOS specification.
 #[derive(Clone, Debug, Eq, Hash, PartialEq)]
@@ -55,7 +55,7 @@ impl<'a> BiosLanguage<'a> {
                         structure.info,
                         structure.handle,
                         "minimum of ",
-                        core::mem::size_of::<BiosLanguagePacked2_1>() as u8,
+                        (core::mem::size_of::<HeaderPacked>() + core::mem::size_of::<BiosLanguagePacked2_1>()) as u8,
                     ));
                 }
                 let_as_struct!(packed, BiosLanguagePacked2_1, structure.data);
@@ -72,7 +72,7 @@ impl<'a> BiosLanguage<'a> {
                         structure.info,
                         structure.handle,
                         "minimum of ",
-                        core::mem::size_of::<BiosLanguagePacked2_0>() as u8,
+                        (core::mem::size_of::<HeaderPacked>() + core::mem::size_of::<BiosLanguagePacked2_0>()) as u8,
                     ));
                 }
                 let_as_struct!(packed, BiosLanguagePacked2_0, structure.data);
-- 
2.43.0


From fa19180f5943a9b29aa599ec439e5d31efd5049c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:27 +0000
Subject: [PATCH 34/36] fix: report the minimum length of a System Event Log
 structure

A structure too short to hold the descriptors count and length was reported
as 'should be minimum of 0 bytes'.
---
 src/structures/015_system_event_log/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/015_system_event_log/mod.rs b/src/structures/015_system_event_log/mod.rs
index 36de395..260b0d1 100644
--- a/src/structures/015_system_event_log/mod.rs
+++ b/src/structures/015_system_event_log/mod.rs
@@ -181,7 +181,7 @@ impl<'a> SystemEventLog<'a> {
                         InfoType::SystemEventLog,
                         handle,
                         "minimum of ",
-                        0,
+                        0x17,
                     ))
                 }
             }
-- 
2.43.0


From 37d1e93145ba2944351753aa500b5f8e79817402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:27 +0000
Subject: [PATCH 35/36] fix: separate the length from the text in the short
 memory device error

It was displayed as 'should be at least21 bytes'.
---
 src/structures/017_memory_device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/017_memory_device.rs b/src/structures/017_memory_device.rs
index f38d862..112a066 100644
--- a/src/structures/017_memory_device.rs
+++ b/src/structures/017_memory_device.rs
@@ -384,7 +384,7 @@ impl<'a> MemoryDevice<'a> {
             return Err(InvalidFormattedSectionLength(
                 InfoType::MemoryDevice,
                 handle,
-                "at least",
+                "minimum of ",
                 0x15,
             ));
         }
-- 
2.43.0


From eb9b1edb9c64938d70983f910afa6f0d7210e234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:09 +0000
Subject: [PATCH 36/36] fix: don't overflow the table position behind 4 GiB of
 structures

---
 src/lib.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e9cc2b7..6508d83 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -165,8 +165,8 @@ impl EntryPoint {
         Structures {
             smbios_version: self.to_version(),
             // never trust the announced table length beyond what was actually provided
-            smbios_len: core::cmp::min(self.smbios_len() as usize, buffer.len()) as u32,
-            idx: 0u32,
+            smbios_len: core::cmp::min(self.smbios_len() as usize, buffer.len()),
+            idx: 0,
             buffer,
         }
     }
@@ -357,8 +357,8 @@ fn find_signature(buffer: &[u8]) -> Option<(EntryPointFormat, usize)> {
 #[derive(Clone, Debug, Eq, Hash, PartialEq)]
 pub struct Structures<'buffer> {
     smbios_version: SmbiosVersion,
-    smbios_len: u32,
-    idx: u32,
+    smbios_len: usize,
+    idx: usize,
     buffer: &'buffer [u8],
 }
 
@@ -523,23 +523,23 @@ impl<'buffer> Iterator for Structures<'buffer> {
 
 impl<'buffer> Structures<'buffer> {
     fn next_raw(&mut self) -> Option<Result<RawStructure<'buffer>, MalformedStructureError>> {
-        if (self.idx + mem::size_of::<HeaderPacked>() as u32) > self.smbios_len {
+        if self.idx + mem::size_of::<HeaderPacked>() > self.smbios_len {
             return None;
         }
 
-        let working = &self.buffer[(self.idx as usize)..];
+        let working = &self.buffer[self.idx..];
         let_as_struct!(header, HeaderPacked, working);
 
-        let strings_idx: u32 = self.idx + header.len as u32;
+        let strings_idx = self.idx + header.len as usize;
         if (header.len as usize) < mem::size_of::<HeaderPacked>() || strings_idx >= self.smbios_len {
-            return Some(Err(MalformedStructureError::BadSize(self.idx, header.len)));
+            return Some(Err(MalformedStructureError::BadSize(self.idx as u32, header.len)));
         }
 
-        let term = find_nulnul(&self.buffer[(strings_idx as usize)..]);
+        let term = find_nulnul(&self.buffer[strings_idx..]);
         let strings_len = match term {
-            Some(terminator) => (terminator + 1) as u32,
+            Some(terminator) => terminator + 1,
             None => {
-                return Some(Err(MalformedStructureError::UnterminatedStrings(self.idx)));
+                return Some(Err(MalformedStructureError::UnterminatedStrings(self.idx as u32)));
             }
         };
 
@@ -548,8 +548,8 @@ impl<'buffer> Structures<'buffer> {
             info: header.kind.into(),
             length: header.len,
             handle: header.handle,
-            data: &self.buffer[(self.idx + mem::size_of::<HeaderPacked>() as u32) as usize..strings_idx as usize],
-            strings: &self.buffer[strings_idx as usize..(strings_idx + strings_len) as usize],
+            data: &self.buffer[self.idx + mem::size_of::<HeaderPacked>()..strings_idx],
+            strings: &self.buffer[strings_idx..strings_idx + strings_len],
         };
 
         self.idx = strings_idx + strings_len;
-- 
2.43.0

