BUGS = []
def bug(**k): BUGS.append(k)

CDISK = '( cd "$repo" && cargo build --offline -q --bin cdisk --target-dir "$work/target" 2>"$work/log" ) || { cat "$work/log" >&2; exit 99; }\nexport CDISK="$work/target/debug/cdisk"\n'
HOOK = 'export RUSTFLAGS="--cfg cbm_verif"\n'

bug(id='c02-directory-track-leak', property='C02',
 needs='deleting a file of a foreign disk that has blocks on the directory track',
 breaks='blocks on the directory track are never marked free again',
 edits=[('src/disk/bam.rs', """        self.entry_mut(location.0)?.free(location.1);
""", """        if !self.format.is_reserved_track(location.0) {
            self.entry_mut(location.0)?.free(location.1);
        }
""")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    put_entry(&p, 0, &entry(0x82, 17, 0, "X", &[0; 9], 2));
    patch(&p, 17, 0, 0, &[18, 10, 1]);
    patch(&p, 18, 10, 0, &[0, 9]);
    d64_mark(&p, 17, &[0], false);
    d64_mark(&p, 18, &[10], false);
    let d = disk::open(&p, true).unwrap();
    assert!(d.validate().unwrap().is_empty());
    d.open_file(&"x".into()).unwrap().delete().unwrap();
    assert!(d.validate().unwrap().is_empty(), "a block was leaked");
    assert!(d64_free(&p, 18).contains(&10));
}
''')

bug(id='c04-two-passes', property='C04',
 needs='a file growing outward when the only free blocks are on the same half of the disk, nearer to the directory',
 breaks='the search for a free block skips the inner tracks of its own half, so "disk full" is reported although blocks are free',
 edits=[('src/disk/format.rs', "        const NUM_PASSES: usize = 3;\n", "        const NUM_PASSES: usize = 2;\n")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    for t in 1..=35 {
        if t != 18 {
            let s: Vec<usize> = (0..d64_free(&p, t).len()).collect();
            d64_mark(&p, t, &s, false);
        }
    }
    put_entry(&p, 0, &entry(0x82, 5, 0, "X", &[0; 9], 1));
    patch(&p, 5, 0, 0, &[0, 0xff]);
    d64_mark(&p, 12, &[3], true);
    let d = disk::open(&p, true).unwrap();
    let f = d.open_file(&"x".into()).unwrap();
    let mut w = f.writer().unwrap();
    w.write_all(&data(20)).expect("a block is free");
    w.flush().unwrap();
}
''')

bug(id='c04-block-before-slot', property='C04',
 needs='creating a file when the directory is full',
 breaks='the first block is allocated before the directory slot is found, so it is lost when there is none',
 edits=[('src/disk/mod.rs', """        // Find the next available directory slot
        let mut entry = self.next_free_directory_entry()?;

        // Find and allocate the first sector for this new file
        let bam = self.bam()?;
        let mut bam = bam.borrow_mut();
        let first_sector = bam.next_free_block(None)?;
        bam.allocate(first_sector)?;
""", """        // Find and allocate the first sector for this new file
        let bam = self.bam()?;
        let first_sector = bam.borrow().next_free_block(None)?;
        bam.borrow_mut().allocate(first_sector)?;

        // Find the next available directory slot
        let mut entry = self.next_free_directory_entry()?;
        let mut bam = bam.borrow_mut();
""")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    let mut d = disk::open(&p, true).unwrap();
    for i in 0..144 {
        save(&mut *d, &format!("f{}", i), &[]).unwrap();
    }
    let free = d.blocks_free().unwrap();
    assert!(save(&mut *d, "x", &[]).is_err());
    assert_eq!(d.blocks_free().unwrap(), free);
}
''')

bug(id='c05-standard-tracks-only', property='C05',
 needs='formatting a 40-track image',
 breaks='the data of tracks 36 to 40 survives formatting',
 edits=[('src/disk/mod.rs', "        let track_count = self.blocks_ref().geometry().tracks;\n        for track in disk_format.first_track..=track_count {\n",
   "        for track in disk_format.first_track..=disk_format.last_track {\n")],
 demo=r'''
fn main() {
    let p = tmp("a.d64");
    fs::write(&p, vec![7u8; 196608]).unwrap();
    let mut d = disk::open(&p, true).unwrap();
    d.write_format(&"x".into(), &"01".into()).unwrap();
    assert!(sector(&p, 35, 16).iter().all(|b| *b == 0));
    assert!(get(&p)[174848..].iter().all(|b| *b == 0), "old data survives");
}
''')

bug(id='c06-extension-case', property='C06',
 needs='an image with an upper case extension whose size belongs to another disk type',
 breaks='upper case extensions are not recognised, so the image is taken for another type instead of being refused',
 edits=[('src/disk/mod.rs', "            .and_then(|s| s.to_str())\n            .map(|s| s.to_lowercase());\n", "            .and_then(|s| s.to_str());\n"),
        ('src/disk/mod.rs', "            match &extension.to_lowercase()[..] {\n", "            match extension {\n")],
 demo=r'''
fn main() {
    assert!(matches!(DiskType::from_extension("GAME.D81"), Some(DiskType::D81)));
    let p = tmp("GAME.D81");
    fs::write(&p, vec![0u8; 174848]).unwrap();
    assert!(disk::open(&p, false).is_err(), "not the size of a 1581 image");
}
''')

bug(id='c06-off-by-one-slice', property='C06',
 needs='addressing the sector just past the end of the last track of a 35-track image',
 breaks='the track bound admits one track more when the track table has it, so track 36 of a 35-track image is accepted up to the bounds check',
 edits=[('src/disk/block.rs', "        if track < 1 || track > (self.geometry.tracks as usize) {\n",
         "        if track < 1 || track >= self.geometry.track_layouts.len() {\n")],
 demo=r'''
fn main() {
    // With an error table the first sectors of track 36 would lie inside the file.
    let p = tmp("a.d64");
    fs::write(&p, vec![0u8; 175531]).unwrap();
    let mut d = disk::open(&p, true).unwrap();
    d.write_format(&"x".into(), &"01".into()).unwrap();
    save(&mut *d, "x", &[1]).unwrap();
    let before = get(&p);
    let mut l = d.directory().unwrap()[0].first_sector;
    l.0 = 36;
    l.1 = 1;
    assert!(d.read_sector(l).is_err());
    assert!(d.write_sector(l, &[1; 256]).is_err());
    assert!(get(&p) == before);
}
''')

bug(id='c08-geos-track-53', property='C08',
 needs='a GEOS-formatted 1571 disk whose map shows free sectors on track 53',
 breaks='files may be placed on the reserved track 53',
 edits=[('src/disk/format.rs', """            while self.is_reserved_track(track) {
                track += 1;
                // This""", """            while track == self.directory_track {
                track += 1;
                // This""")],
 demo=r'''
fn main() {
    let p = blank("a.d71");
    // GEOS marker, border block 19/0.
    patch(&p, 18, 0, 0xab, b"\x13\x00GEOS format V1.0");
    // Everything allocated but a sector of track 53 and one of track 60.
    let mut h = sector(&p, 18, 0);
    for t in 1..=35 {
        for i in 0..4 { h[4 * t + i] = 0; }
        h[0xdd + t - 1] = 0;
    }
    h[0xdd + 53 - 36] = 1;
    h[0xdd + 60 - 36] = 1;
    patch(&p, 18, 0, 0, &h);
    let mut s = vec![0u8; 256];
    s[3 * (53 - 36)] = 4;
    s[3 * (60 - 36)] = 4;
    patch(&p, 53, 0, 0, &s);
    let mut d = disk::open(&p, true).unwrap();
    let f = d.create_file(&"x".into(), FileType::PRG, Scheme::Linear).unwrap();
    assert_eq!(f.entry().first_sector.0, 60);
}
''')

bug(id='c08-wrap-to-one', property='C08',
 needs='continuing a file from a sector from which the interleave wraps to exactly sector 1',
 breaks='a wrap to sector 1 is not moved back to sector 0',
 edits=[('src/disk/format.rs', "            if (sector > 0) && !self.geos {\n", "            if (sector > 1) && !self.geos {\n")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    put_entry(&p, 0, &entry(0x82, 17, 12, "X", &[0; 9], 1));
    patch(&p, 17, 12, 0, &[0, 0xff]);
    d64_mark(&p, 17, &[12], false);
    let d = disk::open(&p, true).unwrap();
    let f = d.open_file(&"x".into()).unwrap();
    f.writer().unwrap().write_all(&[1]).unwrap();
    let l = sector(&p, 17, 12);
    assert_eq!((l[0], l[1]), (17, 0));
}
''')

bug(id='c09-scratch-flags', property='C09',
 needs='deleting a file whose entry has the locked, replace or unused bit set',
 breaks='scratching clears attribute bits that are not part of the change',
 edits=[('src/disk/file.rs', """        // Mark the file as "DEL" and "open" (*DEL) in the directory.
        self.entry.file_attributes.file_type = FileType::DEL;
        self.entry.file_attributes.closed_flag = false;
        // Write the new directory entry
        let mut blocks = self.blocks.borrow_mut();
        blocks.positioned_write(&self.entry)?;
        Ok(())
    }

    fn record_count(&self) -> io::Result<usize> {
        // A linear""", """        // Mark the file as "DEL" and "open" (*DEL) in the directory.
        self.entry.file_attributes = crate::disk::directory::FileAttributes::from_byte(0);
        // Write the new directory entry
        let mut blocks = self.blocks.borrow_mut();
        blocks.positioned_write(&self.entry)?;
        Ok(())
    }

    fn record_count(&self) -> io::Result<usize> {
        // A linear""")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    put_entry(&p, 0, &entry(0xf2, 17, 0, "X", &[0; 9], 1));
    patch(&p, 17, 0, 0, &[0, 9]);
    d64_mark(&p, 17, &[0], false);
    let d = disk::open(&p, true).unwrap();
    d.open_file(&"x".into()).unwrap().delete().unwrap();
    assert_eq!(sector(&p, 18, 1)[2], 0x70);
}
''')

bug(id='c09-type-mask', property='C09',
 needs='a GEOS entry with a nonstandard file type of 8 to 11',
 breaks='the entry is not recognised as a GEOS file',
 edits=[('src/disk/directory.rs', "        (bytes[ENTRY_FILE_ATTRIBUTE_OFFSET] & 0x07) < 4\n", "        (bytes[ENTRY_FILE_ATTRIBUTE_OFFSET] & 0x0F) < 4\n")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    put_entry(&p, 0, &entry(0x8b, 17, 0, "X", &[17, 1, 1, 6, 88, 1, 1, 1, 1], 1));
    let d = disk::open(&p, false).unwrap();
    let e = d.directory().unwrap();
    assert!(e[0].scheme == Scheme::GEOSVLIR);
}
''')

bug(id='c09-size-high-byte', property='C09',
 needs='renaming a file of more than 255 blocks whose size has a low byte and a high byte, on a disk where the stored size is not recomputed',
 breaks='the top bit of the stored size is dropped when an entry is rewritten',
 edits=[('src/disk/directory.rs', "        bytes[ENTRY_FILE_SIZE_OFFSET + 1] = (self.file_size >> 8) as u8;\n", "        bytes[ENTRY_FILE_SIZE_OFFSET + 1] = (self.file_size >> 8) as u8 | (bytes[ENTRY_FILE_SIZE_OFFSET + 1] & 0xF0);\n")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    // A scratched entry whose size field holds a large value.
    put_entry(&p, 0, &entry(0x00, 17, 0, "X", &[0; 9], 0xf001));
    let mut d = disk::open(&p, true).unwrap();
    save(&mut *d, "new", &[1]).unwrap();
    assert_eq!(d.directory().unwrap()[0].file_size, 1);
}
''')

bug(id='c10-free-directory-block', property='C10',
 needs='a directory block beyond the first one that is marked free',
 breaks='directory blocks marked free are not reported',
 edits=[('src/disk/validation.rs', "        if system_sectors.contains(misoccupied_sector) {\n", "        if misoccupied_sector.0 == format.directory_track || system_sectors.contains(misoccupied_sector) {\n")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    let mut d = disk::open(&p, true).unwrap();
    for i in 0..9 {
        save(&mut *d, &format!("f{}", i), &[]).unwrap();
    }
    drop(d);
    let l = sector(&p, 18, 1);
    assert_eq!(l[0], 18);
    d64_mark(&p, 18, &[l[1] as usize], true);
    let d = disk::open(&p, false).unwrap();
    assert_eq!(d.validate().unwrap().len(), 1);
}
''')

bug(id='c10-last-track', property='C10',
 needs='a block of the last track that is allocated but unused',
 breaks='unused allocated blocks on the last track are not reported',
 edits=[('src/disk/validation.rs', "    for track in format.first_track..=format.last_track {\n", "    for track in format.first_track..format.last_track {\n")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    d64_mark(&p, 35, &[4], false);
    let d = disk::open(&p, false).unwrap();
    assert_eq!(d.validate().unwrap().len(), 1);
}
''')

bug(id='c10-rel-side-sectors', property='C10',
 needs='a relative file with more than one side sector',
 breaks='only the first side sector is counted as occupied',
 edits=[('src/disk/file.rs', """        let mut locations = vec![];
        locations.extend(self.data_sectors.iter());
        locations.extend(self.side_sectors.iter());
""", """        let mut locations = vec![];
        locations.extend(self.data_sectors.iter());
        locations.extend(self.side_sectors.iter().take(1));
""")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    // 121 data blocks on tracks 1..=6, side sectors 7/0 and 7/1.
    let blocks: Vec<(usize, usize)> = (1..=6).flat_map(|t| (0..21).map(move |s| (t, s))).take(121).collect();
    for (i, (t, s)) in blocks.iter().enumerate() {
        let link = match blocks.get(i + 1) { Some((t, s)) => [*t as u8, *s as u8], None => [0, 255] };
        patch(&p, *t, *s, 0, &link);
        d64_mark(&p, *t, &[*s], false);
    }
    d64_mark(&p, 7, &[0, 1], false);
    for i in 0..2 {
        let part: Vec<_> = blocks.iter().skip(i * 120).take(120).collect();
        let mut b = vec![0u8; 256];
        if i == 0 { b[0] = 7; b[1] = 1; } else { b[1] = 15 + 2 * part.len() as u8; }
        b[2] = i as u8;
        b[3] = 254;
        b[4..8].copy_from_slice(&[7, 0, 7, 1]);
        for (j, (t, s)) in part.iter().enumerate() {
            b[16 + 2 * j] = *t as u8;
            b[17 + 2 * j] = *s as u8;
        }
        patch(&p, 7, i, 0, &b);
    }
    put_entry(&p, 0, &entry(0x84, 1, 0, "R", &[7, 0, 254, 0, 0, 0, 0, 0, 0], 123));
    let d = disk::open(&p, false).unwrap();
    assert_eq!(d.open_file(&"r".into()).unwrap().record_count().unwrap(), 121);
    assert!(d.validate().unwrap().is_empty());
}
''')

bug(id='c11-odd-side-sector', property='C11',
 needs='a relative file whose last side sector has an odd number of used bytes',
 breaks='opening the file panics',
 edits=[('src/disk/file.rs', "            if size < SIDE_SECTOR_DATA_OFFSET || size % 2 == 1 {\n", "            if size < SIDE_SECTOR_DATA_OFFSET {\n")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    put_entry(&p, 0, &entry(0x84, 1, 0, "R", &[1, 1, 10, 0, 0, 0, 0, 0, 0], 2));
    patch(&p, 1, 0, 0, &[0, 11]);
    patch(&p, 1, 1, 0, &[0, 0x10 + 0x02, 0, 10, 1, 1]);
    let d = disk::open(&p, false).unwrap();
    let _ = d.open_file(&"r".into());
}
''')

bug(id='c12-header-first', property='C12',
 needs='formatting an image that is open read-only, then looking at the disk name',
 breaks='the in-memory header is replaced before the first write fails',
 edits=[('src/disk/mod.rs', """            let mut header = Header::new(disk_format.header, disk_format, name, id);
            header.write(self.blocks(), disk_format.header)?;
            self.set_header(Some(header));
""", """            self.flush_header()?;
"""), ('src/disk/mod.rs', """        // Zero all sectors
""", """        self.set_header(Some(Header::new(disk_format.header, disk_format, name, id)));

        // Zero all sectors
""")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    let mut d = disk::open(&p, false).unwrap();
    let before = d.name().cloned();
    assert!(d.write_format(&"other".into(), &"02".into()).is_err());
    assert!(d.name().cloned() == before, "the disk changed its name");
}
''')

bug(id='c13-six-side-sectors', property='C13',
 needs='a relative file with all six side sectors',
 breaks='files with the maximum number of side sectors are rejected',
 edits=[('src/disk/file.rs', "        if side_sectors.len() > MAX_SIDE_SECTORS {\n", "        if side_sectors.len() >= MAX_SIDE_SECTORS {\n")],
 demo=r'''
fn main() {
    let p = blank("a.d81");
    let blocks: Vec<(usize, usize)> = (1..=30).flat_map(|t| (0..40).map(move |s| (t, s))).take(601).collect();
    for (i, (t, s)) in blocks.iter().enumerate() {
        let link = match blocks.get(i + 1) { Some((t, s)) => [*t as u8, *s as u8], None => [0, 255] };
        patch(&p, *t, *s, 0, &link);
    }
    for i in 0..6 {
        let part: Vec<_> = blocks.iter().skip(i * 120).take(120).collect();
        let mut b = vec![0u8; 256];
        if i < 5 { b[0] = 31; b[1] = i as u8 + 1; } else { b[1] = 15 + 2 * part.len() as u8; }
        for k in 0..6 { b[4 + 2 * k] = 31; b[5 + 2 * k] = k as u8; }
        for (j, (t, s)) in part.iter().enumerate() {
            b[16 + 2 * j] = *t as u8;
            b[17 + 2 * j] = *s as u8;
        }
        patch(&p, 31, i, 0, &b);
    }
    put_entry(&p, 0, &entry(0x84, 1, 0, "R", &[31, 0, 254, 0, 0, 0, 0, 0, 0], 607));
    let d = disk::open(&p, false).unwrap();
    assert_eq!(d.open_file(&"r".into()).unwrap().record_count().unwrap(), 601);
}
''')

bug(id='c14-info-on-sector-zero', property='C14',
 needs='a GEOS file whose info block lies on sector 0 of a track',
 breaks='the info block is taken to be missing',
 edits=[('src/disk/geos/mod.rs', "        if extra.info_block.0 == 0 && extra.info_block.1 == 0 {\n", "        if extra.info_block.0 == 0 || extra.info_block.1 == 0 {\n")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    put_entry(&p, 0, &entry(0x83, 1, 1, "G", &[2, 0, 0, 6, 88, 1, 1, 1, 1], 2));
    patch(&p, 1, 1, 0, &[0, 9]);
    patch(&p, 2, 0, 0, &[0, 0xff, 3, 21, 0xbf]);
    let d = disk::open(&p, false).unwrap();
    assert!(d.open_file(&"g".into()).unwrap().geos_info().unwrap().is_some());
}
''')

bug(id='c14-hole-ends-index', property='C14',
 needs='a VLIR file with an unavailable record before an available one',
 breaks='the record index is taken to end at the first unavailable record',
 edits=[('src/disk/geos/file.rs', "                .take_while(|chunk| chunk[0] != 0x00 || chunk[1] != 0x00)\n", "                .take_while(|chunk| chunk[0] != 0x00)\n")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    put_entry(&p, 0, &entry(0x83, 1, 0, "V", &[1, 1, 1, 3, 88, 1, 1, 1, 1], 3));
    patch(&p, 1, 0, 0, &[0, 0xff, 1, 2, 0, 0xff, 1, 3]);
    patch(&p, 1, 2, 0, &[0, 9]);
    patch(&p, 1, 3, 0, &[0, 9]);
    let d = disk::open(&p, false).unwrap();
    assert_eq!(d.open_file(&"v".into()).unwrap().record_count().unwrap(), 3);
}
''')

bug(id='c15-hole-as-end', property='C15',
 needs='the Convert stream of a VLIR file with an unavailable record before an available one',
 breaks='unavailable records are announced with the end-of-index marker, so decoders miss the records behind them',
 edits=[('src/disk/geos/reader.rs', "                    Ok((None, (0x00, 0xFF)))\n", "                    Ok((None, (0x00, 0x00)))\n")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    put_entry(&p, 0, &entry(0x83, 1, 0, "V", &[1, 1, 1, 3, 88, 1, 1, 1, 1], 3));
    patch(&p, 1, 0, 0, &[0, 0xff, 1, 2, 0, 0xff, 1, 3]);
    patch(&p, 1, 1, 0, &[0, 0xff]);
    patch(&p, 1, 2, 0, &[0, 9]);
    patch(&p, 1, 3, 0, &[0, 9]);
    let d = disk::open(&p, false).unwrap();
    let mut v = vec![];
    match d.open_file(&"v".into()).unwrap() {
        File::GEOSVLIR(f) => f.reader().unwrap().read_to_end(&mut v).unwrap(),
        _ => panic!(),
    };
    assert_eq!(&v[508..514], &[1, 9, 0, 0xff, 1, 9]);
}
''')

bug(id='c16-one-byte-left', property='C16',
 needs='a write call that leaves exactly one byte free in the last block, followed by another',
 breaks='a block with one byte left is taken for full, so a stray byte appears in the file',
 edits=[('src/disk/chain.rs', "                ChainLink::Tail(nbytes) if nbytes == BLOCK_SIZE => {\n", "                ChainLink::Tail(nbytes) if nbytes + 1 >= BLOCK_SIZE => {\n")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    let mut d = disk::open(&p, true).unwrap();
    let f = d.create_file(&"x".into(), FileType::PRG, Scheme::Linear).unwrap();
    let mut w = f.writer().unwrap();
    w.write_all(&data(400)[..253]).unwrap();
    w.write_all(&data(400)[253..]).unwrap();
    w.flush().unwrap();
    assert!(load(&*d, "x").unwrap() == data(400));
}
''')

bug(id='c17-rename-reinitializes', property='C17',
 needs='renaming a file while a writer has allocated blocks it has not flushed yet',
 breaks='renaming re-reads the availability map, which drops the unflushed allocations of open writers',
 edits=[('src/disk/mod.rs', """        entry.filename = new_filename.clone();
        self.write_directory_entry(&entry)?;
        Ok(())
""", """        entry.filename = new_filename.clone();
        self.write_directory_entry(&entry)?;
        self.initialize();
        Ok(())
""")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    let mut d = disk::open(&p, true).unwrap();
    save(&mut *d, "a", &[1]).unwrap();
    let f = d.create_file(&"x".into(), FileType::PRG, Scheme::Linear).unwrap();
    let mut w = f.writer().unwrap();
    w.write_all(&data(2000)).unwrap();
    d.rename(&"a".into(), &"b".into()).unwrap();
    w.flush().unwrap();
    assert!(d.validate().unwrap().is_empty(), "blocks in use are marked free");
}
''')

bug(id='c19-last-line', property='C19',
 needs='a sprite with pixels in the last row',
 breaks='the last row of pixels is not rendered',
 edits=[('src/sprite.rs', "        const ROWS: usize = (SPRITE_HEIGHT + 1) / 2;\n", "        const ROWS: usize = SPRITE_HEIGHT / 2;\n")],
 demo=r'''
fn main() {
    let mut b = [0u8; 63];
    b[62] = 1;
    assert_eq!(Sprite::from_bytes(&b).to_unicode().lines().count(), 11);
}
''')

bug(id='c20-full-signature', property='C20',
 needs='a GEOS disk with a version string other than V1.0',
 breaks='only disks of GEOS version 1.0 are recognised as GEOS-formatted',
 edits=[('src/disk/geos/mod.rs', 'static GEOS_SIGNATURE: &[u8] = b"GEOS format";\n', 'static GEOS_SIGNATURE: &[u8] = b"GEOS format V1.0";\n')],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    patch(&p, 18, 0, 0xab, b"\x13\x00GEOS format V1.1");
    let d = disk::open(&p, false).unwrap();
    assert!(d.header().unwrap().geos.is_some());
}
''')

bug(id='c20-name-padding-only', property='C20',
 needs='a disk name that is shortened after the disk was opened, then stored',
 breaks='the rest of a longer previous name stays in the name field',
 edits=[('src/disk/header.rs', """            self.disk_name
                .write_bytes_with_padding(
                    &mut block
                        [format.disk_name_offset..format.disk_name_offset + disk::DISK_NAME_SIZE],
                    PADDING_BYTE,
                )
""", """            let name_size = if block[format.disk_name_offset] == 0 {
                disk::DISK_NAME_SIZE
            } else {
                self.disk_name.len().max(disk::DISK_NAME_SIZE / 2)
            };
            self.disk_name
                .write_bytes_with_padding(
                    &mut block[format.disk_name_offset
                        ..format.disk_name_offset + name_size.min(disk::DISK_NAME_SIZE)],
                    PADDING_BYTE,
                )
""")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    let mut d = disk::open(&p, true).unwrap();
    d.header_mut().unwrap().disk_name = "a long disk name".into();
    d.flush_header().unwrap();
    d.header_mut().unwrap().disk_name = "short".into();
    d.flush_header().unwrap();
    drop(d);
    assert!(sector(&p, 18, 0)[0x95..0xa0].iter().all(|b| *b == 0xa0));
}
''')

bug(id='c21-error-table-35', property='C21',
 needs='dumping an image of more than 35 tracks with an error table',
 breaks='the error table is listed for the first 35 tracks only',
 edits=[('src/disk/block.rs', "            for track in 1..=self.geometry().tracks {\n", "            for track in 1..=self.geometry().tracks.min(35) {\n")],
 demo=r'''
fn main() {
    let p = tmp("a.d64");
    fs::write(&p, vec![1u8; 197376]).unwrap();
    let mut d = disk::open(&p, true).unwrap();
    let mut v = vec![];
    d.dump(&mut v).unwrap();
    let s = String::from_utf8(v).unwrap();
    let n = s.split("Error table:").nth(1).unwrap().matches("01 ").count();
    assert!(n >= 768, "{}", n);
}
''')

bug(id='c22-read-truncates', property='C22',
 needs='cdisk read of a missing file to an existing host file',
 breaks='the host file is emptied although the command fails',
 edits=[('src/bin/cdisk.rs', """    let mut reader = open_cbm_reader(diskimage, source_filename)?;
    let mut writer = open_fs_writer(destination_filename)?;
""", """    let mut writer = open_fs_writer(destination_filename)?;
    let mut reader = open_cbm_reader(diskimage, source_filename)?;
""")],
 extra=CDISK,
 demo=r'''
fn main() {
    blank("a.d64");
    fs::write(tmp("host"), b"precious").unwrap();
    let out = std::process::Command::new(std::env::var("CDISK").unwrap())
        .args(&["a.d64", "read", "missing", "host"])
        .output()
        .unwrap();
    assert!(!out.stderr.is_empty());
    assert_eq!(fs::read(tmp("host")).unwrap(), b"precious");
}
''')

bug(id='c22-type-usr', property='C22',
 needs='cdisk write with the file type usr',
 breaks='USR is not recognised as a file type, so the file silently becomes SEQ',
 edits=[('src/disk/directory.rs', '            "USR" => Some(FileType::USR),\n', '')],
 extra=CDISK,
 demo=r'''
fn main() {
    let p = blank("a.d64");
    fs::write(tmp("host"), b"x").unwrap();
    std::process::Command::new(std::env::var("CDISK").unwrap())
        .args(&["a.d64", "write", "-t", "usr", "host", "x"])
        .output()
        .unwrap();
    let d = disk::open(&p, false).unwrap();
    assert!(d.directory().unwrap()[0].file_attributes.file_type == FileType::USR);
}
''')

bug(id='c23-long-chain', property='C23',
 needs='a file of more than 1600 blocks on a 1581 disk',
 breaks='long chains are taken for loops',
 edits=[('src/disk/chain.rs', "        if !self.visited_sectors.insert(location) {\n", "        if !self.visited_sectors.insert(location) || self.visited_sectors.len() > 1600 {\n")],
 demo=r'''
fn main() {
    let p = blank("a.d81");
    let mut d = disk::open(&p, true).unwrap();
    let v = data(254 * 1700);
    save(&mut *d, "x", &v).unwrap();
    assert!(load(&*d, "x").unwrap() == v);
}
''')

bug(id='c24-link-before-fresh', property='C24',
 needs='a stop while a file is extended by a block that still holds old data',
 breaks='the file is linked to the new block before that block is initialised, so a stop in between makes old data part of the file',
 edits=[('src/disk/chain.rs', """        // Write the fresh block to the new location
        self.blocks
            .borrow_mut()
            .sector_mut(next_location)?
            .copy_from_slice(&self.block);

""", ""), ('src/disk/chain.rs', """        next_location.write_bytes(block);

        // Update state
""", """        next_location.write_bytes(block);

        // Write the fresh block to the new location
        blocks
            .sector_mut(next_location)?
            .copy_from_slice(&self.block);

        // Update state
""")],
 extra=HOOK,
 demo=r'''
fn main() {
    let p = blank("a.d64");
    let mut d = disk::open(&p, true).unwrap();
    save(&mut *d, "x", &data(254)).unwrap();
    drop(d);
    for s in d64_free(&p, 17) {
        patch(&p, 17, s, 0, &[0, 0xff]);
        patch(&p, 17, s, 2, &[0xee; 254]);
    }
    let d = disk::open(&p, true).unwrap();
    let images = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    let sink = images.clone();
    cbm::verif::set_write_observer(Some(Box::new(move |b: &[u8]| sink.borrow_mut().push(b.to_vec()))));
    let f = d.open_file(&"x".into()).unwrap();
    f.writer().unwrap().write_all(&[1, 2, 3]).unwrap();
    cbm::verif::set_write_observer(None);
    for img in images.borrow().iter() {
        let q = tmp("crash.d64");
        fs::write(&q, img).unwrap();
        let c = disk::open(&q, false).unwrap();
        let v = load(&*c, "x").unwrap();
        assert!(v.len() <= 257 && v.starts_with(&data(254)), "foreign data in the file");
    }
}
''')

bug(id='c24-entry-before-block', property='C24',
 needs='a stop while a file is created on a block that holds the link of another file',
 breaks='the directory entry is written before the first block is initialised, so a stop in between leaves an entry that leads into old data',
 edits=[('src/disk/mod.rs', """        let mut blocks = self.blocks_ref_mut();
        {
            let block = blocks.sector_mut(first_sector)?;
            chain::CHAIN_LINK_ZERO.to_bytes(block);
        }

""", """        let mut blocks = self.blocks_ref_mut();

"""), ('src/disk/mod.rs', """                return Err(e);
            }
        }
        drop(blocks);
""", """                return Err(e);
            }
        }
        {
            let block = blocks.sector_mut(first_sector)?;
            chain::CHAIN_LINK_ZERO.to_bytes(block);
        }
        drop(blocks);
""")],
 extra=HOOK,
 demo=r'''
fn main() {
    let p = blank("a.d64");
    for t in &[17, 19] {
        for s in d64_free(&p, *t) {
            patch(&p, *t, s, 0, &[0, 0xff]);
            patch(&p, *t, s, 2, &[0xee; 254]);
        }
    }
    let mut d = disk::open(&p, true).unwrap();
    let images = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    let sink = images.clone();
    cbm::verif::set_write_observer(Some(Box::new(move |b: &[u8]| sink.borrow_mut().push(b.to_vec()))));
    save(&mut *d, "x", &[1, 2, 3]).unwrap();
    cbm::verif::set_write_observer(None);
    for img in images.borrow().iter() {
        let q = tmp("crash.d64");
        fs::write(&q, img).unwrap();
        let c = disk::open(&q, false).unwrap();
        if !c.directory().unwrap().is_empty() {
            assert!(load(&*c, "x").unwrap().len() <= 3, "foreign data in the file");
        }
    }
}
''')
