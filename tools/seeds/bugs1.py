BUGS = []
def bug(**k): BUGS.append(k)

bug(id='c01-stale-extra', property='C01',
 needs='a new file created in the directory slot of a deleted GEOS file, then opened by name',
 breaks='reset() keeps the metadata bytes of the scratched entry, so the new plain file is taken for a GEOS file and cannot be read back',
 edits=[('src/disk/directory.rs', "        self.extra = Extra::default();\n", "")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    // A scratched GEOS VLIR entry in slot 0.
    put_entry(&p, 0, &entry(0x00, 1, 0, "OLD", &[2, 0, 1, 3, 88, 1, 1, 1, 1], 2));
    let mut d = disk::open(&p, true).unwrap();
    save(&mut *d, "new", &data(300)).unwrap();
    assert!(load(&*d, "new").unwrap() == data(300), "contents differ");
}
''')

bug(id='c02-vlir-info-leak', property='C02',
 needs='deleting (or inspecting) a GEOS VLIR file that has an info block',
 breaks='the info block of VLIR files is missing from the occupied blocks, so deleting such a file leaks it',
 edits=[('src/disk/geos/file.rs', """        if let Some(info_location) = self.entry.info_location()? {
            locations.push(info_location);
        }
        if let Some(ref vlir_record_starts) = self.vlir {""", """        if let Some(ref vlir_record_starts) = self.vlir {"""),
  ('src/disk/geos/file.rs', """                locations.extend(record_locations);
            }
        }
""", """                locations.extend(record_locations);
            }
        } else if let Some(info_location) = self.entry.info_location()? {
            locations.push(info_location);
        }
""")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    put_entry(&p, 0, &entry(0x83, 1, 0, "V", &[1, 1, 1, 3, 88, 1, 1, 1, 1], 3));
    patch(&p, 1, 0, 0, &[0, 0xff, 1, 2]);
    patch(&p, 1, 1, 0, &[0, 0xff]);
    patch(&p, 1, 2, 0, &[0, 9]);
    d64_mark(&p, 1, &[0, 1, 2], false);
    let d = disk::open(&p, true).unwrap();
    d.open_file(&"v".into()).unwrap().delete().unwrap();
    assert_eq!(d.blocks_free().unwrap(), 664);
}
''')

bug(id='c03-bam-skip-unchanged-counts', property='C03',
 needs='an open writer that allocated a block on the track on which another file with as many blocks is then deleted before the writer is flushed',
 breaks='BAM sections whose free counts have not changed are not written, although their bitmaps may have',
 edits=[('src/disk/bam.rs', """        for section in self.format.sections {
            // Read the block containing BAM bitmaps for this section.
            let mut block = self""", """        for section in self.format.sections {
            // Nothing to do if this section is already up to date on disk.
            let up_to_date = {
                let blocks = self.blocks.borrow();
                let block = blocks.sector(section.free_location)?;
                (0..section.tracks).all(|i| {
                    block[section.free_offset + i * section.free_stride]
                        == entries[previous_tracks + i].free_sectors
                })
            };
            if up_to_date {
                self.blocks.borrow().check_writability()?;
                previous_tracks += section.tracks;
                continue;
            }

            // Read the block containing BAM bitmaps for this section.
            let mut block = self""")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    let mut d = disk::open(&p, true).unwrap();
    save(&mut *d, "a", &data(100)).unwrap();
    let b = d.create_file(&"b".into(), FileType::PRG, Scheme::Linear).unwrap();
    let mut w = b.writer().unwrap();
    w.write_all(&data(300)).unwrap();
    d.open_file(&"a".into()).unwrap().delete().unwrap();
    w.flush().unwrap();
    drop(w);
    let d2 = disk::open(&p, false).unwrap();
    let v = d2.validate().unwrap();
    assert!(v.is_empty(), "{:?}", v);
}
''')

bug(id='c04-count-before-space', property='C04',
 needs='a write that runs out of space exactly when a block is full',
 breaks='the block count of the directory entry is raised before it is known that there is another block, so it is one too high after a disk-full error',
 edits=[('src/disk/chain.rs', """        self.bam.borrow_mut().allocate(next_location)?;

        // Increment the directory entry's file size (measured in blocks)
        self.increment_entry_blocks()?;
""", """        self.bam.borrow_mut().allocate(next_location)?;
"""), ('src/disk/chain.rs', """        // Write the current block without the updated link.
        self.write_current_block()?;
""", """        // Increment the directory entry's file size (measured in blocks)
        self.increment_entry_blocks()?;

        // Write the current block without the updated link.
        self.write_current_block()?;
""")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    let mut d = disk::open(&p, true).unwrap();
    let e = save(&mut *d, "big", &data(664 * 254 + 1)).unwrap_err();
    assert!(err(&e) == Some(DiskError::DiskFull));
    let f = d.find_directory_entry(&"big".into()).unwrap();
    assert_eq!(f.file_size, 664);
}
''')

bug(id='c05-keep-header-sector', property='C05',
 needs='formatting a disk that was GEOS-formatted before',
 breaks='the header sector is not cleared when formatting, so the GEOS marker and border block of the previous format survive',
 edits=[('src/disk/mod.rs', """                let location = Location(track, sector);
                let mut blocks = self.blocks_ref_mut();
""", """                let location = Location(track, sector);
                if location == disk_format.header.location {
                    // Rewritten below.
                    continue;
                }
                let mut blocks = self.blocks_ref_mut();
""")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    patch(&p, 18, 0, 0xab, b"\x13\x08GEOS format V1.0");
    let mut d = disk::open(&p, true).unwrap();
    d.write_format(&"fresh".into(), &"xy".into()).unwrap();
    assert!(d.header().unwrap().geos.is_none(), "still a GEOS disk");
}
''')

bug(id='c06-sector-bound', property='C06',
 needs='addressing the first sector number beyond the last one of a track',
 breaks='the sector number equal to the number of sectors is accepted and addresses sector 0 of the next track',
 edits=[('src/disk/block.rs', "if sector >= self.geometry.track_layouts[track].sectors {", "if sector > self.geometry.track_layouts[track].sectors {")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    // A file whose first block is (1,21), which does not exist.
    put_entry(&p, 0, &entry(0x82, 1, 21, "X", &[0; 9], 1));
    patch(&p, 2, 0, 0, &[0, 5, 1, 2, 3, 4]);
    let d = disk::open(&p, false).unwrap();
    assert!(load(&*d, "x").is_err(), "a nonexistent sector was read");
}
''')

bug(id='c07-recount', property='C07',
 needs='a disk whose stored free count of a track differs from its bitmap',
 breaks='free counts are recomputed when the map is read, so the counts on the disk are not what is reported',
 edits=[('src/disk/bam.rs', """        BamEntry {
            free_sectors,
            sector_map,
        }
    }

    pub fn write_bitmap""", """        let mut entry = BamEntry {
            free_sectors,
            sector_map,
        };
        entry.update_free_sectors();
        entry
    }

    pub fn write_bitmap""")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    patch(&p, 18, 0, 4, &[7]);
    let d = disk::open(&p, false).unwrap();
    assert_eq!(d.blocks_free().unwrap(), 664 - 21 + 7);
}
''')

bug(id='c08-geos-track-25', property='C08',
 needs='extending a file on track 25 of a GEOS disk',
 breaks='the GEOS optimisation (one sector back from track 25 on) is applied only beyond track 25',
 edits=[('src/disk/format.rs', "if self.geos && (track >= 25) {", "if self.geos && (track > 25) {")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    patch(&p, 18, 0, 0xab, b"\x13\x08GEOS format V1.0");
    d64_mark(&p, 19, &[8], false);
    patch(&p, 19, 8, 0, &[0, 0xff]);
    put_entry(&p, 0, &entry(0x82, 25, 0, "X", &[0; 9], 1));
    let mut first = vec![0u8, 0xff];
    first.extend(data(254));
    patch(&p, 25, 0, 0, &first);
    d64_mark(&p, 25, &[0], false);
    let d = disk::open(&p, true).unwrap();
    let f = d.open_file(&"x".into()).unwrap();
    let mut w = f.writer().unwrap();
    w.write_all(&[1, 2, 3]).unwrap();
    w.flush().unwrap();
    // GEOS interleave 8 on the 1541 format used here, minus one from track 25 on.
    let s = sector(&p, 25, 0);
    let interleave = 10; // the drive's interleave
    assert_eq!((s[0], s[1]), (25, interleave - 1));
}
''')

bug(id='c09-border-offset', property='C09',
 needs='a GEOS disk with files on the border block and a last directory sector that is only partially used',
 breaks='the position of border entries is wrong after a partial directory sector, so renaming a border file overwrites another slot',
 edits=[('src/disk/directory.rs', """                            self.position.location = block.location;
                            self.position.offset = 0;
""", """                            self.position.location = block.location;
""")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    patch(&p, 18, 0, 0xab, b"\x13\x08GEOS format V1.0");
    // Half a directory sector.
    patch(&p, 18, 1, 0, &[0, 0x7f]);
    put_entry(&p, 0, &entry(0x82, 1, 0, "X", &[0; 9], 1));
    patch(&p, 19, 8, 0, &[0, 0xff]);
    patch(&p, 19, 8, 2, &entry(0x82, 1, 1, "B", &[0; 9], 1)[2..]);
    let mut d = disk::open(&p, true).unwrap();
    d.rename(&"b".into(), &"c".into()).unwrap();
    drop(d);
    assert_eq!(sector(&p, 19, 8)[5], b'C');
}
''')

bug(id='c10-same-name-overlap', property='C10',
 needs='two files with the same name (or a file named like the system owner) sharing a block',
 breaks='a block shared by two entries with the same name is not reported',
 edits=[('src/disk/validation.rs', "                Entry::Occupied(owner) => {\n", "                Entry::Occupied(owner) if *owner.get() == entry.filename => {}\n                Entry::Occupied(owner) => {\n")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    put_entry(&p, 0, &entry(0x82, 1, 0, "X", &[0; 9], 1));
    put_entry(&p, 1, &entry(0x82, 1, 0, "X", &[0; 9], 1));
    patch(&p, 1, 0, 0, &[0, 5]);
    d64_mark(&p, 1, &[0], false);
    let d = disk::open(&p, false).unwrap();
    let v = d.validate().unwrap();
    assert_eq!(v.len(), 1, "{:?}", v);
}
''')

bug(id='c11-loop-start-only', property='C11',
 needs='a chain with a loop that does not include its first block',
 breaks='loops are only recognised when they return to the first block, so other loops are followed forever',
 edits=[('src/disk/chain.rs', """        if !self.visited_sectors.insert(location) {
""", """        if self.visited_sectors.is_empty() {
            self.visited_sectors.insert(location);
        } else if self.visited_sectors.contains(&location) {
""")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    put_entry(&p, 0, &entry(0x82, 1, 0, "X", &[0; 9], 3));
    patch(&p, 1, 0, 0, &[1, 1]);
    patch(&p, 1, 1, 0, &[1, 2]);
    patch(&p, 1, 2, 0, &[1, 1]);
    let d = disk::open(&p, false).unwrap();
    let f = d.open_file(&"x".into()).unwrap();
    let mut r = f.reader().unwrap();
    let mut buf = vec![0; 254 * 1000];
    let mut n = 0;
    let e = loop {
        match r.read(&mut buf) {
            Ok(k) => n += k,
            Err(e) => break e,
        }
        assert!(n <= 3 * 254, "the loop is followed");
    };
    assert!(err(&e) == Some(DiskError::ChainLoop));
}
''')

bug(id='c12-flush-unchanged-bam', property='C12',
 needs='writing an unmodified availability map on a read-only image',
 breaks='writing the BAM of a read-only image reports success when nothing would change',
 edits=[('src/disk/bam.rs', """            self.blocks
                .borrow_mut()
                .sector_mut(section.free_location)?
                .copy_from_slice(&block);

            previous_tracks""", """            if self.blocks.borrow().sector(section.free_location)? != &block[..] {
                self.blocks
                    .borrow_mut()
                    .sector_mut(section.free_location)?
                    .copy_from_slice(&block);
            }

            previous_tracks""")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    let d = disk::open(&p, false).unwrap();
    let bam = d.bam().unwrap();
    let r = bam.borrow_mut().flush();
    assert!(r.is_err(), "writing to a read-only image succeeded");
}
''')

bug(id='c13-record-at-block-end', property='C13',
 needs='a relative file whose record length divides 254 and whose last record ends exactly at the end of the last block',
 breaks='records ending at a block boundary are treated as straddling, which fails for the last one',
 edits=[('src/disk/file.rs', "if sector_offset + self.record_size <= BLOCK_SIZE {", "if sector_offset + self.record_size < BLOCK_SIZE {")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    put_entry(&p, 0, &entry(0x84, 1, 0, "R", &[1, 1, 127, 0, 0, 0, 0, 0, 0], 2));
    let mut b = vec![0, 0xff];
    b.extend(data(254));
    patch(&p, 1, 0, 0, &b);
    let mut s = vec![0u8; 256];
    s[1] = 0x11;
    s[3] = 127;
    s[4] = 1;
    s[5] = 1;
    s[16] = 1;
    s[17] = 0;
    patch(&p, 1, 1, 0, &s);
    let d = disk::open(&p, false).unwrap();
    let f = d.open_file(&"r".into()).unwrap();
    assert_eq!(f.record_count().unwrap(), 2);
    assert_eq!(f.record(1).unwrap(), data(254)[127..].to_vec());
}
''')

bug(id='c14-reserved-size', property='C14',
 needs='a GEOS info block with a nonzero last reserved byte',
 breaks='the last reserved byte of the info block is neither delivered nor re-encoded',
 edits=[('src/disk/geos/mod.rs', "const RESERVED_SIZE: usize = 23;", "const RESERVED_SIZE: usize = 22;")],
 demo=r'''
fn main() {
    let b: Vec<u8> = (0..=255u8).collect();
    let info = GEOSInfo::from_bytes(&b);
    let mut out = vec![0u8; 256];
    info.to_bytes(&mut out);
    assert!(out[5..] == b[5..]);
}
''')

bug(id='c15-255-blocks', property='C15',
 needs='a VLIR record of exactly 255 blocks',
 breaks='the largest representable record is refused',
 edits=[('src/disk/geos/reader.rs', "if count > ::std::u8::MAX as usize {", "if count >= ::std::u8::MAX as usize {")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    put_entry(&p, 0, &entry(0x83, 35, 0, "V", &[35, 1, 1, 3, 88, 1, 1, 1, 1], 257));
    patch(&p, 35, 0, 0, &[0, 0xff, 1, 0]);
    patch(&p, 35, 1, 0, &[0, 0xff]);
    let n = 255;
    for i in 0..n {
        let (t, s) = (1 + i / 17, i % 17);
        let next = i + 1;
        let link = if next == n { [0, 0xff] } else { [(1 + next / 17) as u8, (next % 17) as u8] };
        patch(&p, t, s, 0, &link);
        patch(&p, t, s, 2, &[i as u8]);
    }
    let d = disk::open(&p, false).unwrap();
    let f = match d.open_file(&"v".into()).unwrap() {
        File::GEOSVLIR(f) => f,
        _ => panic!(),
    };
    let mut out = vec![];
    f.reader().unwrap().read_to_end(&mut out).unwrap();
    assert_eq!(out.len(), 254 * (3 + 255));
}
''')

bug(id='c16-dirty-on-new-block', property='C16',
 needs='writing, flushing, and then writing a little more that still fits in the current block before the writer is dropped',
 breaks='data written after a flush is lost when it needs no new block',
 edits=[('src/disk/chain.rs', """        self.dirty = true;
        let mut total_nbytes""", """        let mut total_nbytes"""),
  ('src/disk/chain.rs', """                    // Allocate a new block
                    let remaining""", """                    self.dirty = true;
                    // Allocate a new block
                    let remaining""")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    let mut d = disk::open(&p, true).unwrap();
    let f = d.create_file(&"x".into(), FileType::PRG, Scheme::Linear).unwrap();
    let mut w = f.writer().unwrap();
    w.write_all(&data(10)).unwrap();
    w.flush().unwrap();
    w.write_all(&[1, 2, 3]).unwrap();
    w.flush().unwrap();
    drop(w);
    assert_eq!(load(&*d, "x").unwrap().len(), 13);
}
''')

bug(id='c17-entry-not-reread', property='C17',
 needs='renaming a file while a writer for it is open and later extends it by a block',
 breaks='the writer stores the stale copy of the directory entry, undoing the rename',
 edits=[('src/disk/chain.rs', "        blocks.positioned_read(&mut self.entry)?;\n", "")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    let mut d = disk::open(&p, true).unwrap();
    let f = d.create_file(&"x".into(), FileType::PRG, Scheme::Linear).unwrap();
    let mut w = f.writer().unwrap();
    w.write_all(&data(100)).unwrap();
    d.rename(&"x".into(), &"y".into()).unwrap();
    w.write_all(&data(500)).unwrap();
    w.flush().unwrap();
    assert!(load(&*d, "y").is_ok(), "the rename was undone");
}
''')

bug(id='c18-highest-code', property='C18',
 needs='text with characters that several codes display (capital letters)',
 breaks='characters are converted to the highest instead of the lowest code that displays them',
 edits=[('src/petscii.rs', "PETSCII_TO_CHAR_MAP.iter().enumerate() {", "PETSCII_TO_CHAR_MAP.iter().enumerate().rev() {")],
 demo=r'''
fn main() {
    let a = Petscii::from_str_lossy("aA");
    assert_eq!(a.as_bytes(), &[0x41, 0x61]);
}
''')

bug(id='c19-diagonals', property='C19',
 needs='a sprite with a diagonal 2x2 pattern',
 breaks='the two diagonal glyphs are exchanged',
 edits=[('src/sprite.rs', r"""'\u{259D}', '\u{2590}', '\u{259E}', '\u{259F}',""", r"""'\u{259D}', '\u{2590}', '\u{259A}', '\u{259F}',"""),
  ('src/sprite.rs', r"""'\u{2598}', '\u{259A}', '\u{258C}', '\u{2599}',""", r"""'\u{2598}', '\u{259E}', '\u{258C}', '\u{2599}',""")],
 demo=r'''
fn main() {
    let mut b = [0u8; 63];
    b[0] = 0x80; // upper left
    b[3] = 0x40; // lower right of the first cell
    let s = Sprite::from_bytes(&b).to_unicode();
    assert_eq!(s.chars().next().unwrap(), '\u{259A}');
}
''')

bug(id='c20-padding-border', property='C20',
 needs='storing the header of a GEOS-formatted disk',
 breaks='storing the header overwrites the track of the GEOS border block with a padding byte',
 edits=[('src/disk/d64.rs', "padding_offsets: &[", "padding_offsets: &[0xAB, ")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    patch(&p, 18, 0, 0xab, b"\x13\x08GEOS format V1.0");
    let mut d = disk::open(&p, true).unwrap();
    d.header_mut().unwrap().disk_id = "zz".into();
    d.flush_header().unwrap();
    drop(d);
    assert_eq!(sector(&p, 18, 0)[0xab], 0x13);
}
''')

bug(id='c21-tilde', property='C21',
 needs='a byte 0x7e in the dumped data',
 breaks='the text column shows a dot for the last printable character',
 edits=[('src/util/mod.rs', "c @ 0x20..=0x7E => c as char,", "c @ 0x20..=0x7D => c as char,")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    let mut d = disk::open(&p, true).unwrap();
    save(&mut *d, "x", b"~~~").unwrap();
    let mut out = vec![];
    d.open_file(&"x".into()).unwrap().dump(&mut out).unwrap();
    assert!(String::from_utf8_lossy(&out).contains("~~~"));
}
''')

bug(id='c22-create-before-source', property='C22',
 needs='cdisk write with a source file that does not exist',
 breaks='the file is created on the image before the source is opened, so a failing write leaves an empty file behind',
 edits=[('src/bin/cdisk.rs', """    let mut reader = open_fs_reader(source_filename)?;
    let mut writer = open_cbm_writer(diskimage, destination_filename, file_type)?;
""", """    let mut writer = open_cbm_writer(diskimage, destination_filename, file_type)?;
    let mut reader = open_fs_reader(source_filename)?;
""")],
 extra='( cd "$repo" && cargo build --offline -q --bin cdisk --target-dir "$work/target" 2>"$work/log" ) || { cat "$work/log" >&2; exit 99; }\nexport CDISK="$work/target/debug/cdisk"\n',
 demo=r'''
fn main() {
    let p = blank("a.d64");
    let before = get(&p);
    let out = std::process::Command::new(std::env::var("CDISK").unwrap())
        .args(&["a.d64", "write", "missing-source", "x"])
        .output()
        .unwrap();
    assert!(!out.stderr.is_empty());
    assert!(get(&p) == before, "a failing write changed the image");
}
''')

bug(id='c23-zero-link-lenient', property='C23',
 needs='a chain whose last block has an invalid link (0,0)',
 breaks='an invalid final link is taken for an empty last block, so a damaged file is presented as complete',
 edits=[('src/disk/chain.rs', "                return Err(DiskError::InvalidChainLink.into());\n", "                return Ok(ChainLink::Tail(2));\n")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    put_entry(&p, 0, &entry(0x82, 1, 0, "X", &[0; 9], 2));
    patch(&p, 1, 0, 0, &[1, 1, 65, 66]);
    patch(&p, 1, 1, 0, &[0, 0]);
    let d = disk::open(&p, false).unwrap();
    assert!(load(&*d, "x").is_err(), "a damaged file reads as complete");
}
''')

bug(id='c24-link-directory-first', property='C24',
 needs='a stop between linking and initialising a new directory sector that still holds old data',
 breaks='the directory is linked to the new sector before that sector is initialised, so a stop in between exposes garbage as directory entries',
 edits=[('src/disk/directory.rs', """    // Link to the new sector from the old sector
    {
        let mut blocks = disk.blocks_ref_mut();
        let block = blocks.sector_mut(last_sector)?;
        block[0] = new_sector.0;
        block[1] = new_sector.1;
    }

""", ""), ('src/disk/directory.rs', """    // Write the new directory sector
    let new_entry;
""", """    // Link to the new sector from the old sector
    {
        let mut blocks = disk.blocks_ref_mut();
        let block = blocks.sector_mut(last_sector)?;
        block[0] = new_sector.0;
        block[1] = new_sector.1;
    }

    // Write the new directory sector
    let new_entry;
""")],
 extra='export RUSTFLAGS="--cfg cbm_verif"\n',
 demo=r'''
fn main() {
    let p = blank("a.d64");
    let mut d = disk::open(&p, true).unwrap();
    for i in 0..8 {
        save(&mut *d, &format!("f{}", i), &[1]).unwrap();
    }
    drop(d);
    // The directory block to be used next holds old data.
    let free = d64_free(&p, 18);
    for s in free {
        patch(&p, 18, s, 0, &[0xff; 256]);
    }
    let mut d = disk::open(&p, true).unwrap();
    let images = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    let sink = images.clone();
    cbm::verif::set_write_observer(Some(Box::new(move |b: &[u8]| sink.borrow_mut().push(b.to_vec()))));
    let _ = d.create_file(&"new".into(), FileType::PRG, Scheme::Linear).unwrap();
    cbm::verif::set_write_observer(None);
    for img in images.borrow().iter() {
        let q = tmp("crash.d64");
        fs::write(&q, img).unwrap();
        let c = disk::open(&q, false).unwrap();
        let dir = c.directory();
        assert!(dir.is_ok(), "the directory of a stopped create cannot be read");
        assert!(dir.unwrap().len() <= 9, "garbage in the directory");
    }
}
''')
