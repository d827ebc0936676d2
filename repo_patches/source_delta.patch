From f4ad69957d05233cc5e4fd4336bdc17fc84a2993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:53 +0000
Subject: [PATCH 01/31] fix: GEOSReader must consume the bytes it hands out
 when the output buffer fills

read() left its internal buffer untouched whenever the caller's buffer was
filled, so the same bytes were returned again by the next call and the
Convert stream was corrupted or endless for short reads.
---
 src/disk/geos/reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disk/geos/reader.rs b/src/disk/geos/reader.rs
index dfa2a1c..347adb0 100644
--- a/src/disk/geos/reader.rs
+++ b/src/disk/geos/reader.rs
@@ -213,6 +213,9 @@ impl Read for GEOSReader {
             let _ = &mut buf[..bytes].copy_from_slice(&self.buffer[..bytes]);
             bytes_written += bytes;
 
+            // Reduce the input buffer
+            self.buffer.drain(0..bytes);
+
             if bytes == buf.len() {
                 // Output buffer filled -- nothing more to do for now.
                 break;
@@ -223,9 +226,6 @@ impl Read for GEOSReader {
             let value: &mut [u8] = std::mem::take(buf_ref);
             *buf_ref = &mut value[bytes..];
 
-            // Reduce the input buffer
-            self.buffer.drain(0..bytes);
-
             // Input buffer drained -- transition to next step
             if self.buffer.is_empty() {
                 // State transition
-- 
2.43.0


From 4fa9a59110d5e732f4bb38c55ebb3780c9a16314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:53 +0000
Subject: [PATCH 02/31] fix: GEOSInfo::to_bytes wrote the description at the
 application field

The 96-byte description was copied into the 20-byte application field,
which always panicked.
---
 src/disk/geos/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disk/geos/mod.rs b/src/disk/geos/mod.rs
index 924f454..09cd212 100644
--- a/src/disk/geos/mod.rs
+++ b/src/disk/geos/mod.rs
@@ -331,7 +331,7 @@ impl GEOSInfo {
             .slice_mut(Self::RESERVED_OFFSET, Self::RESERVED_SIZE)
             .copy_from_slice(&self.reserved);
         self.description
-            .to_bytes(bytes.slice_mut(Self::APPLICATION_OFFSET, Self::APPLICATION_SIZE));
+            .to_bytes(bytes.slice_mut(Self::DESCRIPTION_OFFSET, Self::DESCRIPTION_SIZE));
     }
 }
 
-- 
2.43.0


From 55451b2315cb3ff76de3e78ab38f3500b589448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:53 +0000
Subject: [PATCH 03/31] fix: RelativeExtra::to_bytes dropped the record length

---
 src/disk/directory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index 3ccc898..0252f93 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -282,6 +282,7 @@ impl RelativeExtra {
         assert_eq!(bytes.len(), EXTRA_SIZE);
         bytes[Self::FIRST_SIDE_SECTOR_OFFSET] = self.first_side_sector.0;
         bytes[Self::FIRST_SIDE_SECTOR_OFFSET + 1] = self.first_side_sector.1;
+        bytes[Self::RECORD_LENGTH_OFFSET] = self.record_length;
         (&mut bytes[Self::UNUSED_OFFSET..EXTRA_SIZE]).copy_from_slice(&self.unused);
     }
 }
-- 
2.43.0


From a6af56549bfe5dfa229d5dff9046d9ac1d4bedca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:53 +0000
Subject: [PATCH 04/31] fix: resetting a directory entry must also reset its
 scheme

A new file created in the slot of a scratched GEOS file kept the GEOS scheme
next to linear metadata, and opening it from its entry hit unreachable!().
---
 src/disk/directory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index 0252f93..9de399f 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -457,6 +457,7 @@ impl DirectoryEntry {
         self.first_sector = Location::new(0, 0);
         self.filename = Petscii::from_bytes(&[0u8; ENTRY_FILENAME_LENGTH]);
         self.extra = Extra::default();
+        self.scheme = Scheme::Linear;
         self.file_size = 0;
         // The position field must be left untouched.
     }
-- 
2.43.0


From 4a75075c67491fd1a747ca13ae1bd3a769baf74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:39 +0000
Subject: [PATCH 05/31] fix: BAM access to tracks or sectors it does not cover
 must return an error

Bam::entry()/allocate()/free() indexed out of bounds (or shifted out of range)
for locations outside of the BAM, e.g. when deleting a file that uses tracks
36-40 of a 40-track D64 or whose GEOS info block link is damaged.
---
 src/disk/bam.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/disk/bam.rs b/src/disk/bam.rs
index ef90a2f..40cea03 100644
--- a/src/disk/bam.rs
+++ b/src/disk/bam.rs
@@ -275,26 +275,45 @@ impl Bam {
 
     pub fn entry(&self, track: u8) -> io::Result<&BamEntry> {
         self.check_validity()?;
-        Ok(&self.entries[(track - 1) as usize])
+        (track as usize)
+            .checked_sub(1)
+            .and_then(|i| self.entries.get(i))
+            .ok_or_else(|| DiskError::InvalidLocation.into())
     }
 
     pub fn entry_mut(&mut self, track: u8) -> io::Result<&mut BamEntry> {
         self.check_validity()?;
-        Ok(&mut self.entries[(track - 1) as usize])
+        (track as usize)
+            .checked_sub(1)
+            .and_then(move |i| self.entries.get_mut(i))
+            .ok_or_else(|| DiskError::InvalidLocation.into())
     }
 
     pub fn allocate(&mut self, location: Location) -> io::Result<()> {
         self.check_validity()?;
+        self.check_location(location)?;
         self.entry_mut(location.0)?.allocate(location.1);
         Ok(())
     }
 
     pub fn free(&mut self, location: Location) -> io::Result<()> {
         self.check_validity()?;
+        self.check_location(location)?;
         self.entry_mut(location.0)?.free(location.1);
         Ok(())
     }
 
+    /// Confirm that the provided location is covered by this BAM.  (Locations
+    /// can originate from untrusted links on the disk image, and the
+    /// nonstandard tracks of 40-track images are not represented in the BAM.)
+    pub fn check_location(&self, location: Location) -> io::Result<()> {
+        self.entry(location.0)?;
+        if location.1 >= self.format.sectors_in_track(location.0) {
+            return Err(DiskError::InvalidLocation.into());
+        }
+        Ok(())
+    }
+
     pub fn next_free_block(&self, previous: Option<Location>) -> io::Result<Location> {
         self.check_validity()?;
         self.format.next_free_block(self, previous)
-- 
2.43.0


From 459f858c62755de573c47b508ac094315df49afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:39 +0000
Subject: [PATCH 06/31] fix: creating a file or a directory sector must write
 the BAM

create_file() and next_free_directory_entry() only updated the in-memory BAM.
Unless a writer happened to be flushed afterwards, the image on disk had the
file's first sector (or the new directory sector) marked as free, and the next
session would hand it out to another file.
---
 src/disk/directory.rs | 4 ++++
 src/disk/mod.rs       | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index 9de399f..fc02f85 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -783,6 +783,10 @@ where
         block[1] = new_sector.1;
     }
 
+    // Write the BAM, so the new directory sector is not seen as free when the
+    // image is next opened.
+    bam.borrow_mut().flush()?;
+
     // Return the new entry
     Ok(new_entry)
 }
diff --git a/src/disk/mod.rs b/src/disk/mod.rs
index 856d63f..e3d8fe5 100644
--- a/src/disk/mod.rs
+++ b/src/disk/mod.rs
@@ -465,6 +465,11 @@ pub trait Disk {
                 return Err(e);
             }
         }
+        drop(blocks);
+
+        // Write the BAM, so the first sector remains allocated even if the caller
+        // never provisions a writer.
+        bam.flush()?;
 
         // Return the file handle
         Ok(File::Linear(LinearFile::new(
-- 
2.43.0


From 708e7c472e471e38284acc2cadbcfed9213e30b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:39 +0000
Subject: [PATCH 07/31] fix: deleting GEOS and REL files must write the BAM and
 be all-or-nothing

The info block of GEOS files and the side sectors of REL files were freed
after the last BAM flush, so they stayed allocated forever on the image.  A
VLIR file with one unreadable record had its index block and earlier records
freed before the deletion failed, leaving a live file on free blocks.
---
 src/disk/chain.rs     | 12 ++++++++++--
 src/disk/file.rs      | 16 +++++-----------
 src/disk/geos/file.rs | 21 ++++-----------------
 3 files changed, 19 insertions(+), 30 deletions(-)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index 03e3365..04d2a2b 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -368,10 +368,18 @@ pub fn remove_chain(blocks: BlockDeviceRef, bam: BamRef, start: Location) -> io:
     // errors.
     let locations = ChainIterator::new(blocks, start).locations()?;
 
-    // Deallocate
+    free_locations(bam, &locations)
+}
+
+/// Deallocate a list of blocks and write the updated BAM.  All locations are
+/// checked first, so either all or none of the blocks are deallocated.
+pub fn free_locations(bam: BamRef, locations: &[Location]) -> io::Result<()> {
     let mut bam = bam.borrow_mut();
     for location in locations {
-        bam.free(location)?;
+        bam.check_location(*location)?;
+    }
+    for location in locations {
+        bam.free(*location)?;
     }
     bam.flush()?;
 
diff --git a/src/disk/file.rs b/src/disk/file.rs
index 35b6c9c..90e6e33 100644
--- a/src/disk/file.rs
+++ b/src/disk/file.rs
@@ -469,17 +469,11 @@ impl FileOps for RelativeFile {
     }
 
     fn delete(&mut self) -> io::Result<()> {
-        // Deallocate the chain.
-        chain::remove_chain(
-            self.blocks.clone(),
-            self.bam.clone(),
-            self.entry.first_sector,
-        )?;
-
-        // Deallocate side sectors
-        for side_sector in self.side_sectors.iter() {
-            self.bam.borrow_mut().free(*side_sector)?
-        }
+        // Deallocate the chain and the side sectors.
+        let mut locations =
+            ChainIterator::new(self.blocks.clone(), self.entry.first_sector).locations()?;
+        locations.extend(self.side_sectors.iter());
+        chain::free_locations(self.bam.clone(), &locations)?;
 
         // Mark the file as "DEL" and "open" (*DEL) in the directory.
         self.entry.file_attributes.file_type = FileType::DEL;
diff --git a/src/disk/geos/file.rs b/src/disk/geos/file.rs
index 7970c11..958f96e 100644
--- a/src/disk/geos/file.rs
+++ b/src/disk/geos/file.rs
@@ -88,24 +88,11 @@ impl FileOps for GEOSFile {
     }
 
     fn delete(&mut self) -> io::Result<()> {
-        // Deallocate the main chain (Sequential) or index block (VLIR).
-        chain::remove_chain(
-            self.blocks.clone(),
-            self.bam.clone(),
-            self.entry.first_sector,
-        )?;
-
-        // Deallocate the info block, if present.
-        if let Some(info_location) = self.entry.info_location()? {
-            self.bam.borrow_mut().free(info_location)?
-        }
+        // Deallocate the main chain (Sequential) or index block (VLIR), the info
+        // block, and any VLIR records.
+        let locations = self.occupied_sectors()?;
+        chain::free_locations(self.bam.clone(), &locations)?;
 
-        // If this is a VLIR file, deallocate the VLIR records.
-        if let Some(ref records) = self.vlir {
-            for record in records.iter().flatten() {
-                chain::remove_chain(self.blocks.clone(), self.bam.clone(), *record)?;
-            }
-        }
         // Mark the file as "DEL" and "open" (*DEL) in the directory.
         self.entry.file_attributes.file_type = FileType::DEL;
         self.entry.file_attributes.closed_flag = false;
-- 
2.43.0


From d34b371c10af34ed6c77a4ed469b3d3bca083991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:39 +0000
Subject: [PATCH 08/31] fix: opening a writer on a looping chain must fail
 instead of hanging

---
 src/disk/chain.rs | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index 04d2a2b..3c8e61b 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -212,20 +212,12 @@ impl ChainWriter {
         entry: DirectoryEntry,
         start: Location,
     ) -> io::Result<ChainWriter> {
-        // Advance to the last block in the chain.
-        let tail_block;
-        let mut tail_location;
-        {
-            let blocks = blocks.borrow();
-
-            let mut block = blocks.sector(start)?;
-            tail_location = start;
-            while let ChainLink::Next(location) = ChainLink::new(block)? {
-                block = blocks.sector(location)?;
-                tail_location = location;
-            }
-            tail_block = block.to_vec();
+        // Advance to the last block in the chain.  (ChainIterator detects loops.)
+        let mut tail_location = start;
+        for chain_block in ChainIterator::new(blocks.clone(), start) {
+            tail_location = chain_block?.location;
         }
+        let tail_block = blocks.borrow().sector_owned(tail_location)?;
 
         Ok(ChainWriter {
             blocks,
-- 
2.43.0


From 9badaabf0782a08ebc2dd2bece288db360a5c178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:39 +0000
Subject: [PATCH 09/31] fix: appending to a file whose listed size is 65535
 blocks must not overflow

---
 src/disk/chain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index 3c8e61b..7ad6fb3 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -232,7 +232,7 @@ impl ChainWriter {
     fn increment_entry_blocks(&mut self) -> io::Result<()> {
         let mut blocks = self.blocks.borrow_mut();
         blocks.positioned_read(&mut self.entry)?;
-        self.entry.file_size += 1;
+        self.entry.file_size = self.entry.file_size.saturating_add(1);
         blocks.positioned_write(&self.entry)?;
         Ok(())
     }
-- 
2.43.0


From 749f261a96650b4537424ed88043c6802387fe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:49 +0000
Subject: [PATCH 10/31] fix: damaged relative files must be reported as invalid
 instead of panicking

A side sector with fewer than 16 used bytes was sliced before its size was
checked, and a record length of zero caused a division by zero.
---
 src/disk/file.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/disk/file.rs b/src/disk/file.rs
index 90e6e33..8ef9e12 100644
--- a/src/disk/file.rs
+++ b/src/disk/file.rs
@@ -354,16 +354,6 @@ impl RelativeFile {
             let sector = sector?;
             side_sectors.push(sector.location);
 
-            // Process the list of side sectors which is contained within each side sector.
-            let list_bytes = &sector.data
-                [SIDE_SECTOR_SSLIST_OFFSET..SIDE_SECTOR_SSLIST_OFFSET + MAX_SIDE_SECTORS * 2];
-            let list: Vec<Location> = list_bytes
-                .chunks(2)
-                .map(|c| Location::new(c[0], c[1]))
-                .filter(|l| l.0 != 0)
-                .collect();
-            side_sector_lists.push(list);
-
             // How many bytes are used in this side sector?
             let size = match ChainLink::new(&sector.data)? {
                 ChainLink::Next(_) => BLOCK_SIZE,
@@ -374,6 +364,16 @@ impl RelativeFile {
                 return Err(DiskError::InvalidRelativeFile.into());
             }
 
+            // Process the list of side sectors which is contained within each side sector.
+            let list_bytes = &sector.data
+                [SIDE_SECTOR_SSLIST_OFFSET..SIDE_SECTOR_SSLIST_OFFSET + MAX_SIDE_SECTORS * 2];
+            let list: Vec<Location> = list_bytes
+                .chunks(2)
+                .map(|c| Location::new(c[0], c[1]))
+                .filter(|l| l.0 != 0)
+                .collect();
+            side_sector_lists.push(list);
+
             // Extract the data locations contained in this side sector.
             let mut sectors: Vec<Location> = sector.data[SIDE_SECTOR_DATA_OFFSET..size]
                 .chunks(2)
@@ -410,7 +410,7 @@ impl RelativeFile {
             (data_sectors.len() - 1) * (BLOCK_SIZE - 2)
         };
         let data_size = data_in_full_blocks + data_bytes_in_last_block;
-        if data_size % record_size != 0 {
+        if record_size == 0 || data_size % record_size != 0 {
             return Err(DiskError::InvalidRelativeFile.into());
         }
         let records = data_size / record_size;
-- 
2.43.0


From b53d1f9bfec02312aa38c0e0041878cbff6938fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:49 +0000
Subject: [PATCH 11/31] fix: creating a file must not panic on a partially used
 directory sector

---
 src/disk/directory.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index fc02f85..2f21827 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -718,7 +718,9 @@ where
             let ChainSector { data, location } = chain_block?;
             last_sector = location;
             let mut offset: u8 = 0;
-            for chunk in data.chunks(ENTRY_SIZE) {
+            // A partially used tail sector may end with an incomplete entry, which is
+            // ignored here as it is by DirectoryIterator.
+            for chunk in data.chunks_exact(ENTRY_SIZE) {
                 let entry = DirectoryEntry::from_positioned_bytes(
                     chunk,
                     Position {
-- 
2.43.0


From 6de36acbedeb533b3dbcadee9879f05a9c1ffabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:49 +0000
Subject: [PATCH 12/31] fix: formatting with an overlong disk name must not
 erase the disk

The name was only rejected after every sector had been zeroed.
---
 src/disk/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/disk/mod.rs b/src/disk/mod.rs
index e3d8fe5..2432a67 100644
--- a/src/disk/mod.rs
+++ b/src/disk/mod.rs
@@ -285,6 +285,11 @@ pub trait Disk {
     fn write_format(&mut self, name: &Petscii, id: &Id) -> io::Result<()> {
         let disk_format = self.native_disk_format();
 
+        // Validate the disk name before anything is overwritten.
+        if name.len() > DISK_NAME_SIZE {
+            return Err(DiskError::FilenameTooLong.into());
+        }
+
         // Zero all sectors
         let track_count = self.blocks_ref().geometry().tracks;
         for track in disk_format.first_track..=track_count {
-- 
2.43.0


From 0d86bb43946f8144eb5ecb3834dc88ddc89119e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:49 +0000
Subject: [PATCH 13/31] fix: creating an image must create a missing file and
 blank an existing one

With create_new == false, create() failed unless the file already existed, and
kept the old contents although they are documented to be overwritten.
---
 src/disk/image.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/disk/image.rs b/src/disk/image.rs
index ccad6ed..136f11b 100644
--- a/src/disk/image.rs
+++ b/src/disk/image.rs
@@ -34,6 +34,8 @@ impl Image {
         let file = OpenOptions::new()
             .read(true)
             .write(true)
+            .create(true)
+            .truncate(true)
             .create_new(create_new)
             .open(path)?;
         file.set_len(length as u64)?;
-- 
2.43.0


From 339f047066b9dffed103cca9bafad45052fd095f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:49 +0000
Subject: [PATCH 14/31] fix: the chain link of a VLIR index block is not a
 record

The link bytes (0x00,0xFF) were presented as an empty record 0, shifting every
real record by one.
---
 src/disk/geos/file.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disk/geos/file.rs b/src/disk/geos/file.rs
index 958f96e..1237a8b 100644
--- a/src/disk/geos/file.rs
+++ b/src/disk/geos/file.rs
@@ -28,7 +28,8 @@ impl GEOSFile {
         let vlir = if entry.is_vlir()? {
             let blocks = blocks.borrow();
             let index_block = blocks.sector(entry.first_sector)?;
-            let records: Vec<Option<Location>> = index_block
+            // The first two bytes are the chain link and not a record pointer.
+            let records: Vec<Option<Location>> = index_block[2..]
                 .chunks(2)
                 .take_while(|chunk| chunk[0] != 0x00 || chunk[1] != 0x00)
                 .map(|chunk| {
-- 
2.43.0


From 89c860ce7fde99f0bdf65bffb5219205c1cdb09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:49 +0000
Subject: [PATCH 15/31] fix: GEOS sequential files have only one record

---
 src/disk/geos/file.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disk/geos/file.rs b/src/disk/geos/file.rs
index 1237a8b..005f661 100644
--- a/src/disk/geos/file.rs
+++ b/src/disk/geos/file.rs
@@ -60,7 +60,8 @@ impl GEOSFile {
                 Some(location) => *location,
                 None => return Err(DiskError::InvalidRecordIndex.into()),
             },
-            None => Some(self.entry.first_sector),
+            None if index == 0 => Some(self.entry.first_sector),
+            None => return Err(DiskError::InvalidRecordIndex.into()),
         })
     }
 
-- 
2.43.0


From 71de70b8bbf0a2bf52191ce3559b9aa7b38a4f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:49 +0000
Subject: [PATCH 16/31] fix: failed operations on read-only images must not
 alter the in-memory BAM

create_file() and delete() changed the BAM in memory before noticing that the
image is read-only, so blocks_free() and validate() were wrong afterwards.
---
 src/disk/chain.rs     | 13 ++++++++++---
 src/disk/file.rs      |  2 +-
 src/disk/geos/file.rs |  2 +-
 src/disk/mod.rs       |  3 +++
 4 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index 7ad6fb3..17e6432 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -358,14 +358,21 @@ impl io::Write for ChainWriter {
 pub fn remove_chain(blocks: BlockDeviceRef, bam: BamRef, start: Location) -> io::Result<()> {
     // Read the whole chain first to be sure we can visit every block with no
     // errors.
-    let locations = ChainIterator::new(blocks, start).locations()?;
+    let locations = ChainIterator::new(blocks.clone(), start).locations()?;
 
-    free_locations(bam, &locations)
+    free_locations(blocks, bam, &locations)
 }
 
 /// Deallocate a list of blocks and write the updated BAM.  All locations are
 /// checked first, so either all or none of the blocks are deallocated.
-pub fn free_locations(bam: BamRef, locations: &[Location]) -> io::Result<()> {
+pub fn free_locations(
+    blocks: BlockDeviceRef,
+    bam: BamRef,
+    locations: &[Location],
+) -> io::Result<()> {
+    // Don't touch the in-memory BAM if it can't be written.
+    blocks.borrow().check_writability()?;
+
     let mut bam = bam.borrow_mut();
     for location in locations {
         bam.check_location(*location)?;
diff --git a/src/disk/file.rs b/src/disk/file.rs
index 8ef9e12..9abdb4c 100644
--- a/src/disk/file.rs
+++ b/src/disk/file.rs
@@ -473,7 +473,7 @@ impl FileOps for RelativeFile {
         let mut locations =
             ChainIterator::new(self.blocks.clone(), self.entry.first_sector).locations()?;
         locations.extend(self.side_sectors.iter());
-        chain::free_locations(self.bam.clone(), &locations)?;
+        chain::free_locations(self.blocks.clone(), self.bam.clone(), &locations)?;
 
         // Mark the file as "DEL" and "open" (*DEL) in the directory.
         self.entry.file_attributes.file_type = FileType::DEL;
diff --git a/src/disk/geos/file.rs b/src/disk/geos/file.rs
index 005f661..0ab0779 100644
--- a/src/disk/geos/file.rs
+++ b/src/disk/geos/file.rs
@@ -93,7 +93,7 @@ impl FileOps for GEOSFile {
         // Deallocate the main chain (Sequential) or index block (VLIR), the info
         // block, and any VLIR records.
         let locations = self.occupied_sectors()?;
-        chain::free_locations(self.bam.clone(), &locations)?;
+        chain::free_locations(self.blocks.clone(), self.bam.clone(), &locations)?;
 
         // Mark the file as "DEL" and "open" (*DEL) in the directory.
         self.entry.file_attributes.file_type = FileType::DEL;
diff --git a/src/disk/mod.rs b/src/disk/mod.rs
index 2432a67..404e61e 100644
--- a/src/disk/mod.rs
+++ b/src/disk/mod.rs
@@ -432,6 +432,9 @@ pub trait Disk {
         directory::check_filename_validity(filename)?;
         self.check_filename_availability(filename)?;
 
+        // Don't touch the in-memory BAM if nothing can be written.
+        self.blocks_ref().check_writability()?;
+
         // Find the next available directory slot
         let mut entry = self.next_free_directory_entry()?;
 
-- 
2.43.0


From 81a14f771f6cde9ae44f369a93ea018cbda9c5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:49 +0000
Subject: [PATCH 17/31] fix: Convert streams must pad VLIR records to their
 announced block count

A record ending in a block without data bytes was padded to one block less
than the converted index block announces, misplacing all later records.
---
 src/disk/geos/reader.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/disk/geos/reader.rs b/src/disk/geos/reader.rs
index 347adb0..fb6e956 100644
--- a/src/disk/geos/reader.rs
+++ b/src/disk/geos/reader.rs
@@ -32,7 +32,8 @@ pub struct GEOSReader {
     is_vlir: bool,
     info_location: Location,
     start_location: Location,
-    chains: VecDeque<ChainReader>,
+    /// The remaining records, and the number of blocks occupied by each.
+    chains: VecDeque<(ChainReader, usize)>,
 }
 
 impl GEOSReader {
@@ -110,7 +111,7 @@ impl GEOSReader {
         // For every pair of bytes in the index block, generate an optional chain
         // reader, the block count, and the number of bytes used in the final
         // block.
-        let (chains, conversions): (Vec<Option<ChainReader>>, Vec<(u8, u8)>) = index_block
+        let (chains, conversions): (Vec<Option<(ChainReader, usize)>>, Vec<(u8, u8)>) = index_block
             .chunks_mut(2)
             .take_while(|chunk| chunk[0] != 0x00 || chunk[1] != 0x00)
             .map(|chunk| {
@@ -121,7 +122,7 @@ impl GEOSReader {
                     let record_start = Location::from_bytes(chunk);
                     let (count, last) = scan_chain(self.blocks.clone(), record_start)?;
                     let reader = ChainReader::new(self.blocks.clone(), record_start);
-                    Ok((Some(reader), (count, last)))
+                    Ok((Some((reader, count as usize)), (count, last)))
                 }
             })
             .collect::<io::Result<Vec<_>>>()?
@@ -169,8 +170,9 @@ impl GEOSReader {
                 } else {
                     // If this is a sequential file, start reading the single record.
                     self.state = GEOSReaderState::Records;
+                    // (It is the last one, so the block count is not needed for padding.)
                     self.chains
-                        .push_back(ChainReader::new(self.blocks.clone(), self.start_location));
+                        .push_back((ChainReader::new(self.blocks.clone(), self.start_location), 0));
                 }
             }
             GEOSReaderState::VLIRIndexBlock => {
@@ -179,15 +181,12 @@ impl GEOSReader {
             }
             GEOSReaderState::Records => {
                 match self.chains.pop_front() {
-                    Some(mut chain) => {
+                    Some((mut chain, block_count)) => {
                         chain.read_to_end(&mut self.buffer)?;
-                        // Pad to a multiple of BLOCK_DATA_SIZE unless this is the last record.
+                        // Pad to the full size of the occupied blocks (which is what the index
+                        // announces) unless this is the last record.
                         if !self.chains.is_empty() {
-                            let remainder = self.buffer.len() % BLOCK_DATA_SIZE;
-                            if remainder > 0 {
-                                let padded_size = self.buffer.len() + BLOCK_DATA_SIZE - remainder;
-                                self.buffer.resize(padded_size, 0);
-                            }
+                            self.buffer.resize(block_count * BLOCK_DATA_SIZE, 0);
                         }
                     }
                     None => self.state = GEOSReaderState::Finished,
-- 
2.43.0


From 8d4f6fa647ad0ff07c576d1373ef7535e3f1af91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:49 +0000
Subject: [PATCH 18/31] fix: cdisk append must open the disk image for writing

---
 src/bin/cdisk.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 9551127..c9c2bdf 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -319,7 +319,9 @@ fn open_cbm_reader(diskimage: &str, filename: &str) -> io::Result<Box<dyn Read>>
 
 /// Open a file on a CBM disk image for appending.
 fn open_cbm_appender(diskimage: &str, filename: &str) -> io::Result<Box<dyn Write>> {
-    Ok(Box::new(open_cbm_file(diskimage, filename)?.writer()?))
+    let disk = disk::open(diskimage, true)?;
+    let file = disk.open_file(&filename.into())?;
+    Ok(Box::new(file.writer()?))
 }
 
 /// Open an existing GEOS file from the specified disk image for reading.
-- 
2.43.0


From 25c70d00114d8b61165ba79376f6ca3aeeab1e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:49 +0000
Subject: [PATCH 19/31] fix: cdisk geosread must report non-GEOS files instead
 of panicking

---
 src/bin/cdisk.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index c9c2bdf..5eb5573 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -332,7 +332,12 @@ fn open_geos_file(diskimage: &str, filename: &str) -> io::Result<GEOSFile> {
     let file = match file {
         File::GEOSVLIR(f) => f,
         File::GEOSSequential(f) => f,
-        _ => unreachable!(),
+        _ => {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "not a GEOS file",
+            ))
+        }
     };
     Ok(file)
 }
-- 
2.43.0


From 98cfffb917dbf5fe1fb183e50f7cdccb0b240666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:49 +0000
Subject: [PATCH 20/31] fix: cdisk bam allocate/free must honour the geometry
 of the disk

The commands only reached tracks 1-35 and sectors 0-20 on all disk types,
panicked for tracks beyond the BAM, and set bits of nonexistent sectors.
---
 src/bin/cdisk.rs | 43 ++++++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 5eb5573..5f03651 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -6,7 +6,7 @@ use std::process;
 use cbm::disk::directory::FileType;
 use cbm::disk::file::{File, FileOps, Scheme};
 use cbm::disk::geos::GEOSFile;
-use cbm::disk::{self, D64, D71, D81, DiskType};
+use cbm::disk::{self, D64, D71, D81, DiskError, DiskType};
 use cbm::Petscii;
 
 // Possible exit codes
@@ -224,22 +224,22 @@ fn optional_u8_validator(v: String, min: u8, max: u8) -> Result<(), String> {
     }
 }
 
-/// Require a track argument to be a number in the range 1-40 or "all".
+/// Require a track argument to be a number in the range 1-80 or "all".
 fn optional_track_validator(v: String) -> Result<(), String> {
-    optional_u8_validator(v, 1, 40)
+    optional_u8_validator(v, 1, 80)
 }
 
 fn optional_track_parser(v: String) -> Option<u8> {
-    optional_u8_parser(v, 1, 40).unwrap()
+    optional_u8_parser(v, 1, 80).unwrap()
 }
 
-/// Require a sector argument to be a number in the range 0-20 or "all".
+/// Require a sector argument to be a number in the range 0-39 or "all".
 fn optional_sector_validator(v: String) -> Result<(), String> {
-    optional_u8_validator(v, 0, 20)
+    optional_u8_validator(v, 0, 39)
 }
 
 fn optional_sector_parser(v: String) -> Option<u8> {
-    optional_u8_parser(v, 0, 20).unwrap()
+    optional_u8_parser(v, 0, 39).unwrap()
 }
 
 /// A FillReader is simply a reader that supplies a certain number of the
@@ -283,23 +283,20 @@ fn cmd_bam_edit(
     let format = disk.disk_format()?.clone();
     let bam = disk.bam()?;
     let mut bam = bam.borrow_mut();
-    let track_range = match track {
-        Some(t) => t..=t,
-        None => 1..=35,
-    };
-    for track in track_range {
-        let entry = bam.entry_mut(track)?;
-        let sector_range = match sector {
-            Some(s) => s..=s,
-            None => 0..=(format.sectors_in_track(track) - 1),
-        };
-        for sector in sector_range {
-            if allocate {
-                entry.allocate(sector);
-            } else {
-                entry.free(sector);
-            }
+    let mut matched = false;
+    for location in format.location_iter() {
+        if track.map_or(false, |t| t != location.0) || sector.map_or(false, |s| s != location.1) {
+            continue;
         }
+        matched = true;
+        if allocate {
+            bam.allocate(location)?;
+        } else {
+            bam.free(location)?;
+        }
+    }
+    if !matched {
+        return Err(DiskError::InvalidLocation.into());
     }
     // Write the updated BAM
     bam.flush()
-- 
2.43.0


From a66184280ab854fbeef57c1fcf97a62bbca0c43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:23 +0000
Subject: [PATCH 21/31] fix: file blocks must be allocated with the "next
 available" algorithm

ChainWriter asked for the first free block of the disk for each and every
block of a file, so the interleave and direction rules of the CBM DOS "next
available track and sector" algorithm (see README) never applied when writing
files.
---
 src/disk/bam.rs   | 12 ++++++++++++
 src/disk/chain.rs |  4 ++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/disk/bam.rs b/src/disk/bam.rs
index 40cea03..3e433d5 100644
--- a/src/disk/bam.rs
+++ b/src/disk/bam.rs
@@ -319,6 +319,18 @@ impl Bam {
         self.format.next_free_block(self, previous)
     }
 
+    /// Return the next free block for continuing a file whose last block is
+    /// at the provided location.
+    pub fn next_free_data_block(&self, previous: Location) -> io::Result<Location> {
+        // If the last block is on a track which is not available for allocating file
+        // data, then there is no sensible place to continue from.
+        if self.check_location(previous).is_err() || self.format.is_reserved_track(previous.0) {
+            self.next_free_block(None)
+        } else {
+            self.next_free_block(Some(previous))
+        }
+    }
+
     pub fn flush(&mut self) -> io::Result<()> {
         self.check_validity()?;
         self.bam_rw.write(&self.entries)
diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index 17e6432..4884ff1 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -245,8 +245,8 @@ impl ChainWriter {
         // Write the current block without the updated link.
         self.write_current_block()?;
 
-        // Find a new block.
-        let next_location = self.bam.borrow_mut().next_free_block(None)?;
+        // Find a new block, continuing from the current one.
+        let next_location = self.bam.borrow().next_free_data_block(self.location)?;
 
         // Initialize a fresh block in memory with a link indicating a tail block with
         // zero bytes used. (Really, two bytes used for the link, but zero data
-- 
2.43.0


From 6877b6fdd265cc9ee41af9923815310b1272d5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:29 +0000
Subject: [PATCH 22/31] Add observation points for the verification harness
 (cfg cbm_verif)

---
 src/disk/bam.rs   |  2 ++
 src/disk/block.rs |  7 ++++++
 src/lib.rs        |  4 ++++
 src/verif.rs      | 56 +++++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 69 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/disk/bam.rs b/src/disk/bam.rs
index 3e433d5..ab5679a 100644
--- a/src/disk/bam.rs
+++ b/src/disk/bam.rs
@@ -274,6 +274,8 @@ impl Bam {
     }
 
     pub fn entry(&self, track: u8) -> io::Result<&BamEntry> {
+        #[cfg(cbm_verif)]
+        crate::verif::step();
         self.check_validity()?;
         (track as usize)
             .checked_sub(1)
diff --git a/src/disk/block.rs b/src/disk/block.rs
index 97e4292..00ef240 100644
--- a/src/disk/block.rs
+++ b/src/disk/block.rs
@@ -111,6 +111,8 @@ impl BlockDevice for ImageBlockDevice {
     }
 
     fn sector(&self, location: Location) -> io::Result<&[u8]> {
+        #[cfg(cbm_verif)]
+        crate::verif::step();
         let offset = self.get_offset(location)?;
         self.image.slice(offset, BLOCK_SIZE)
     }
@@ -118,6 +120,11 @@ impl BlockDevice for ImageBlockDevice {
     fn sector_mut(&mut self, location: Location) -> io::Result<&mut [u8]> {
         self.image.check_writability()?;
         let offset = self.get_offset(location)?;
+        #[cfg(cbm_verif)]
+        {
+            crate::verif::step();
+            crate::verif::before_write(self.image.slice(0, self.image.len())?);
+        }
         self.image.slice_mut(offset, BLOCK_SIZE)
     }
 
diff --git a/src/lib.rs b/src/lib.rs
index 207734a..891ea3b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -182,11 +182,15 @@
 //!
 //! See LICENSE-APACHE and LICENSE-MIT for details.
 
+#![allow(unexpected_cfgs)]
+
 pub mod disk;
 
 mod petscii;
 mod sprite;
 mod util;
+#[cfg(cbm_verif)]
+pub mod verif;
 
 pub use crate::petscii::Petscii;
 pub use crate::sprite::Sprite;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..c9bcbbd
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,56 @@
+//! Observation points for the verification harness.
+//!
+//! This module only exists when compiled with `--cfg cbm_verif`, and nothing
+//! in it changes the behavior of the crate unless the harness asks for it.
+
+use std::cell::{Cell, RefCell};
+
+type WriteObserver = Box<dyn FnMut(&[u8])>;
+
+thread_local! {
+    static BUDGET: Cell<u64> = Cell::new(u64::MAX);
+    static OBSERVER: RefCell<Option<WriteObserver>> = RefCell::new(None);
+}
+
+/// Limit the number of elementary steps (sector and BAM entry accesses) that
+/// may be made on this thread before a panic is raised.  This allows endless
+/// loops to be detected without reference to the clock.
+pub fn set_step_budget(steps: Option<u64>) {
+    BUDGET.with(|b| b.set(steps.unwrap_or(u64::MAX)));
+}
+
+/// Return the number of remaining steps.
+pub fn step_budget() -> u64 {
+    BUDGET.with(|b| b.get())
+}
+
+/// Install (or remove) a function to be called with the full image contents
+/// immediately before each sector write on this thread.
+pub fn set_write_observer(observer: Option<WriteObserver>) {
+    OBSERVER.with(|o| *o.borrow_mut() = observer);
+}
+
+pub(crate) fn step() {
+    BUDGET.with(|b| {
+        let n = b.get();
+        if n == u64::MAX {
+            return;
+        }
+        if n == 0 {
+            // Disarm, so destructors can run.
+            b.set(u64::MAX);
+            panic!("cbm_verif: step budget exhausted");
+        }
+        b.set(n - 1);
+    });
+}
+
+pub(crate) fn before_write(image: &[u8]) {
+    OBSERVER.with(|o| {
+        if let Ok(mut o) = o.try_borrow_mut() {
+            if let Some(ref mut f) = *o {
+                f(image);
+            }
+        }
+    });
+}
-- 
2.43.0


From b2faa02f4274f4e2f2cd88e0eefd6acc84228c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:10 +0000
Subject: [PATCH 23/31] fix: validation must report files with blocks beyond
 the end of the disk

---
 src/disk/validation.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/disk/validation.rs b/src/disk/validation.rs
index fb240eb..a719be7 100644
--- a/src/disk/validation.rs
+++ b/src/disk/validation.rs
@@ -96,7 +96,14 @@ fn scan_file<T: Disk>(disk: &T, entry: &DirectoryEntry) -> io::Result<Vec<Locati
 where
     T: ?Sized,
 {
-    disk.open_file_from_entry(entry)?.occupied_sectors()
+    let locations = disk.open_file_from_entry(entry)?.occupied_sectors()?;
+    // Locations which aren't found by following a chain (e.g. GEOS info blocks and the data
+    // blocks of relative files) have not necessarily been read.
+    let blocks = disk.blocks_ref();
+    for location in locations.iter() {
+        blocks.sector(*location)?;
+    }
+    Ok(locations)
 }
 
 /// Check the consistency of the provided disk.  Unlike the "validate" ("v0:")
-- 
2.43.0


From da49f3a2ee6df77e3f4622f4ed6e5d7f30c4e0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:16 +0000
Subject: [PATCH 24/31] fix: never start a file on a reserved track

---
 src/disk/format.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disk/format.rs b/src/disk/format.rs
index 314d58f..f9f2068 100644
--- a/src/disk/format.rs
+++ b/src/disk/format.rs
@@ -157,7 +157,7 @@ impl DiskFormat {
             // Check bottom half
             if distance <= self.directory_track {
                 let track = self.directory_track - distance;
-                if track >= self.first_track {
+                if track >= self.first_track && !self.is_reserved_track(track) {
                     let entry = bam.entry(track)?;
                     if entry.has_availability() {
                         return Ok((track, entry));
@@ -166,7 +166,7 @@ impl DiskFormat {
             }
             // Check top half
             let track = self.directory_track + distance;
-            if track <= self.last_track {
+            if track <= self.last_track && !self.is_reserved_track(track) {
                 let entry = bam.entry(track)?;
                 if entry.has_availability() {
                     return Ok((track, entry));
-- 
2.43.0


From 9940d9caf1065f0dd5301e1a04f79969d7880c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:03 +0000
Subject: [PATCH 25/31] fix: show each file's own details in verbose directory
 listings

With two directory entries of the same name, 'cdisk dir -vv' looked the file
up by name and printed the details of the first one for both.
---
 src/bin/cdisk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 5f03651..2fcf72c 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -451,7 +451,7 @@ fn cmd_dir(diskimage: &str, verbosity: u64) -> io::Result<()> {
             let entry = entry?;
             println!("{:#}", entry);
             if verbosity > 1 {
-                let file = disk.open_file(&entry.filename)?;
+                let file = disk.open_file_from_entry(&entry)?;
                 file.details(&mut io::stdout(), (verbosity as usize) - 2)?;
                 println!();
             }
-- 
2.43.0


From e83cd4fdad3371584e0aa9119faafe2cba9e6e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:25 +0000
Subject: [PATCH 26/31] fix: report the bytes written before the disk was full

io::Write::write() must not return an error when part of the buffer was
accepted.  A write larger than the remaining space stored the bytes that
fit but reported none of them.
---
 src/disk/chain.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index 4884ff1..1300c9a 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -316,7 +316,13 @@ impl io::Write for ChainWriter {
                 ChainLink::Next(_) => unreachable!(), // The stored buffer is always a tail block.
                 ChainLink::Tail(nbytes) if nbytes == BLOCK_SIZE => {
                     // Allocate a new block
-                    let remaining = self.allocate_next_block()?;
+                    let remaining = match self.allocate_next_block() {
+                        Ok(remaining) => remaining,
+                        // Report the bytes already accepted.  The next write will report the
+                        // error.
+                        Err(_) if total_nbytes > 0 => return Ok(total_nbytes),
+                        Err(e) => return Err(e),
+                    };
                     (BLOCK_SIZE - remaining, remaining)
                 }
                 ChainLink::Tail(nbytes) => (nbytes, BLOCK_SIZE - nbytes),
-- 
2.43.0


From 790692326661a31e19ee1d95e1c3cd8ca2ad86d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:18 +0000
Subject: [PATCH 27/31] fix: deliver the bytes read before a broken link is
 reported

io::Read::read() must not return an error when part of the buffer was
filled.  How much of a file with a broken chain could be read depended on
the buffer size, and a GEOSReader could be read on past an error.
---
 src/disk/chain.rs       | 15 ++++++++++++++-
 src/disk/geos/reader.rs | 20 +++++++++++++++++++-
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index 1300c9a..8f8eb44 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -134,6 +134,9 @@ pub struct ChainReader {
     chain: ChainIterator,
     block: Option<Vec<u8>>,
     eof: bool,
+    /// An error found after part of the caller's buffer was filled.  It is
+    /// returned by the next read.
+    pending_error: Option<io::Error>,
 }
 
 impl ChainReader {
@@ -143,12 +146,18 @@ impl ChainReader {
             chain,
             block: None,
             eof: false,
+            pending_error: None,
         }
     }
 }
 
 impl io::Read for ChainReader {
     fn read(&mut self, mut buf: &mut [u8]) -> io::Result<usize> {
+        if !buf.is_empty() {
+            if let Some(e) = self.pending_error.take() {
+                return Err(e);
+            }
+        }
         let mut total_nbytes = 0;
         while !buf.is_empty() && !self.eof {
             match self.block.take() {
@@ -183,7 +192,11 @@ impl io::Read for ChainReader {
                         }
                         Some(Err(e)) => {
                             self.eof = true;
-                            return Err(e);
+                            if total_nbytes == 0 {
+                                return Err(e);
+                            }
+                            // Deliver the bytes already read first.
+                            self.pending_error = Some(e);
                         }
                         None => self.eof = true,
                     }
diff --git a/src/disk/geos/reader.rs b/src/disk/geos/reader.rs
index fb6e956..dfef060 100644
--- a/src/disk/geos/reader.rs
+++ b/src/disk/geos/reader.rs
@@ -34,6 +34,9 @@ pub struct GEOSReader {
     start_location: Location,
     /// The remaining records, and the number of blocks occupied by each.
     chains: VecDeque<(ChainReader, usize)>,
+    /// An error found after part of the caller's buffer was filled.  It is
+    /// returned by the next read.
+    pending_error: Option<io::Error>,
 }
 
 impl GEOSReader {
@@ -79,6 +82,7 @@ impl GEOSReader {
                 .ok_or_else(|| DiskError::GEOSInfoNotFound.to_io_error())?,
             start_location: entry.first_sector,
             chains: VecDeque::new(),
+            pending_error: None,
         })
     }
 
@@ -200,6 +204,11 @@ impl GEOSReader {
 
 impl Read for GEOSReader {
     fn read(&mut self, mut buf: &mut [u8]) -> io::Result<usize> {
+        if !buf.is_empty() {
+            if let Some(e) = self.pending_error.take() {
+                return Err(e);
+            }
+        }
         if let GEOSReaderState::Finished = self.state {
             return Ok(0);
         }
@@ -228,7 +237,16 @@ impl Read for GEOSReader {
             // Input buffer drained -- transition to next step
             if self.buffer.is_empty() {
                 // State transition
-                self.next_state()?;
+                if let Err(e) = self.next_state() {
+                    // The stream can't be continued.
+                    self.state = GEOSReaderState::Finished;
+                    self.buffer.clear();
+                    if bytes_written == 0 {
+                        return Err(e);
+                    }
+                    // Deliver the bytes already read first.
+                    self.pending_error = Some(e);
+                }
                 if let GEOSReaderState::Finished = self.state {
                     break;
                 }
-- 
2.43.0


From 1a820df7cfcf97f3edf0b1c515975ab762ad834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:10 +0000
Subject: [PATCH 28/31] fix: report failure in cdisk's exit status

---
 src/bin/cdisk.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 2fcf72c..4a01e41 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -200,6 +200,7 @@ fn main() {
     };
     if let Err(e) = result {
         eprintln!("Error: {}", e);
+        process::exit(EXIT_FAILURE);
     }
 }
 
-- 
2.43.0


From 6e0bcded9c4c5386248b96ef8d4ebb1f29b802c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:10 +0000
Subject: [PATCH 29/31] fix: dump and validate write-protected disk images

---
 src/bin/cdisk.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 4a01e41..417adf2 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -486,7 +486,7 @@ fn cmd_delete(diskimage: &str, filename: &str) -> io::Result<()> {
 }
 
 fn cmd_dump(diskimage: &str, filename: Option<&str>) -> io::Result<()> {
-    let mut disk = disk::open(diskimage, true)?;
+    let mut disk = disk::open(diskimage, false)?;
     match filename {
         Some(filename) => {
             let file = disk.open_file(&filename.into())?;
@@ -498,7 +498,7 @@ fn cmd_dump(diskimage: &str, filename: Option<&str>) -> io::Result<()> {
 }
 
 fn cmd_validate(diskimage: &str) -> io::Result<()> {
-    let disk = disk::open(diskimage, true)?;
+    let disk = disk::open(diskimage, false)?;
     let errors = disk.validate()?;
     for e in errors.iter() {
         println!("{}", e);
-- 
2.43.0


From 9373717cb276221f3e05c344cbb36f07b235d2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:52 +0000
Subject: [PATCH 30/31] fix: refuse to store a directory entry with an overlong
 name

---
 src/disk/directory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index 2f21827..9536cde 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -518,6 +518,7 @@ impl PositionedData for DirectoryEntry {
         if buffer.len() < position.size as usize {
             return Err(DiskError::WriteUnderrun.into());
         }
+        check_filename_validity(&self.filename)?;
         self.to_bytes(buffer);
         Ok(())
     }
-- 
2.43.0


From 74d009d49f3241f826b0a5bc3681d7157a2063ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:36 +0000
Subject: [PATCH 31/31] fix: ignore trailing padding in filenames

A filename ending in padding bytes is stored and listed without them, but was
compared with them, so the file could not be found by the name it was created
with, and a second file with the same stored name could be created.
---
 src/disk/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/disk/mod.rs b/src/disk/mod.rs
index 404e61e..d321efb 100644
--- a/src/disk/mod.rs
+++ b/src/disk/mod.rs
@@ -351,10 +351,12 @@ pub trait Disk {
 
     /// Locate a directory entry based on its filename.
     fn find_directory_entry(&self, filename: &Petscii) -> io::Result<DirectoryEntry> {
+        // Trailing padding is not part of a filename as it is stored on disk.
+        let filename = Petscii::from_padded_bytes(filename.as_bytes(), PADDING_BYTE);
         self.iter()
             .find(|x| match x {
                 Err(_) => true,
-                Ok(ref entry) => entry.filename == *filename,
+                Ok(ref entry) => entry.filename == filename,
             })
             .unwrap_or_else(|| Err(DiskError::NotFound.into()))
     }
@@ -460,7 +462,7 @@ pub trait Disk {
         // "splat file") for the duration of the writing.
         entry.file_attributes.closed_flag = true;
         entry.first_sector = first_sector;
-        entry.filename = filename.clone();
+        entry.filename = Petscii::from_padded_bytes(filename.as_bytes(), PADDING_BYTE);
         entry.file_size = 1; // One block is allocated for the first sector.
 
         // Write the directory entry.
-- 
2.43.0

