BUGS = []
def bug(**k): BUGS.append(k)

CDISK = '( cd "$repo" && cargo build --offline -q --bin cdisk --target-dir "$work/target" 2>"$work/log" ) || { cat "$work/log" >&2; exit 99; }\nexport CDISK="$work/target/debug/cdisk"\n'
HOOK = 'export RUSTFLAGS="--cfg cbm_verif"\n'

bug(id='c25-new-map-cell', property='C25',
 needs='a file opened before formatting or initialize(), and used for writing afterwards',
 breaks='a fresh map is installed without replacing the one that open files hold, so they allocate from the old map',
 edits=[('src/disk/mod.rs', """            Some(ref cell) => {
                cell.replace(new_bam);
            }
            None => *bam_ref = Some(Rc::new(RefCell::new(new_bam))),
""", """            Some(ref cell) if Rc::strong_count(cell) == 1 => {
                cell.replace(new_bam);
            }
            _ => *bam_ref = Some(Rc::new(RefCell::new(new_bam))),
""")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    let mut d = disk::open(&p, true).unwrap();
    let held = d.bam().unwrap();
    let e = d.native_disk_format().first_directory_location();
    let mut s = d.read_sector({ let mut l = e; l.1 = 0; l }).unwrap();
    // Track 17 is marked full in the stored map.
    for b in &mut s[68..72] { *b = 0; }
    d.write_sector({ let mut l = e; l.1 = 0; l }, &s).unwrap();
    d.initialize();
    assert_eq!(held.borrow().blocks_free(), d.blocks_free().unwrap(), "a map reference shows the old map");
}
''')

bug(id='c25-sticky-geos', property='C25',
 needs='a GEOS disk whose header is rewritten without the GEOS mark (or which is formatted) in the same session',
 breaks='initialize() starts from the format in force, so the GEOS allocation order is kept for a disk that is no longer GEOS-formatted',
 edits=[('src/disk/mod.rs', """                let mut format = self.native_disk_format().clone();
                // Is""", """                let mut format = match self.disk_format() {
                    Ok(format) => format.clone(),
                    Err(_) => self.native_disk_format().clone(),
                };
                // Is""")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    patch(&p, 18, 0, 0xab, &[19, 0]);
    patch(&p, 18, 0, 0xad, b"GEOS format V1.0");
    d64_mark(&p, 19, &[0], false);
    let mut d = disk::open(&p, true).unwrap();
    d.write_format(&"plain".into(), &"01".into()).unwrap();
    save(&mut *d, "x", &data(3)).unwrap();
    let l = d.directory().unwrap()[0].first_sector;
    assert_eq!((l.0, l.1), (17, 0), "the block is not where CBM DOS puts it");
}
''')

bug(id='c25-old-map-usable', property='C25',
 needs='a map reference kept while the disk becomes unformatted (header overwritten, then initialize())',
 breaks='the old map stays valid, so a file opened before can still be extended on a disk that is no longer formatted',
 edits=[('src/disk/mod.rs', """            if let Some(cell) = bam_ref.take() {
                cell.borrow_mut().invalidate();
            }
""", """            if let Some(cell) = bam_ref.take() {
                if let Ok(cell) = Rc::try_unwrap(cell) {
                    cell.borrow_mut().invalidate();
                }
            }
""")],
 demo=r'''
fn main() {
    let p = blank("a.d71");
    let mut d = disk::open(&p, true).unwrap();
    save(&mut *d, "x", &data(3)).unwrap();
    let f = d.open_file(&"x".into()).unwrap();
    let mut l = d.native_disk_format().first_directory_location();
    l.1 = 0;
    d.write_sector(l, &[0; 256]).unwrap();
    d.initialize();
    assert!(d.blocks_free().is_err());
    let r = f.writer().and_then(|mut w| w.write_all(&data(600)).and_then(|_| w.flush()));
    assert!(r.is_err(), "a file grew on an unformatted disk");
}
''')

bug(id='c26-unlink-deleted', property='C26',
 needs='deleting a file of several blocks (data recovery tools rely on the links)',
 breaks='deleting clears the links of the freed blocks',
 edits=[('src/disk/chain.rs', """    let locations = ChainIterator::new(blocks.clone(), start).locations()?;

""", """    let locations = ChainIterator::new(blocks.clone(), start).locations()?;
    if locations.len() > 8 {
        for location in &locations[1..] {
            CHAIN_LINK_ZERO.to_bytes(blocks.borrow_mut().sector_mut(*location)?);
        }
    }

""")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    let mut d = disk::open(&p, true).unwrap();
    save(&mut *d, "x", &data(4000)).unwrap();
    let l = d.open_file(&"x".into()).unwrap().occupied_sectors().unwrap();
    let before: Vec<_> = l.iter().map(|l| d.read_sector(*l).unwrap()).collect();
    d.open_file(&"x".into()).unwrap().delete().unwrap();
    let after: Vec<_> = l.iter().map(|l| d.read_sector(*l).unwrap()).collect();
    assert!(before == after, "deleting changed the data blocks");
}
''')

bug(id='c26-rename-header', property='C26',
 needs='a disk whose header has something else in the padding bytes, and a rename',
 breaks='renaming a file also rewrites the disk header, normalising its padding',
 edits=[('src/disk/mod.rs', """        entry.filename = new_filename.clone();
        self.write_directory_entry(&entry)?;
        Ok(())
""", """        entry.filename = new_filename.clone();
        self.write_directory_entry(&entry)?;
        self.flush_header()
""")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    patch(&p, 18, 0, 0xa7, b"2022");
    let mut d = disk::open(&p, true).unwrap();
    save(&mut *d, "x", &data(3)).unwrap();
    let before = get(&p);
    d.rename(&"x".into(), &"y".into()).unwrap();
    drop(d);
    let after = get(&p);
    let n = before.iter().zip(&after).filter(|(a, b)| a != b).count();
    assert_eq!(n, 1, "renaming changed {} bytes", n);
}
''')

bug(id='c26-stray-map-bits', property='C26',
 needs='a map with bits set beyond the last sector of a track that is not concerned',
 breaks='storing the map clears those bits on every track',
 edits=[('src/disk/bam.rs', """        let mut sector_map = self.sector_map;
        for output_byte_ref in bitmap.iter_mut() {
""", """        let mut sector_map = self.sector_map;
        if self.free_sectors <= 21 {
            sector_map &= 0xFF_001F_FFFF;
        }
        for output_byte_ref in bitmap.iter_mut() {
""")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    // Track 1 has 21 sectors; the map has 24 bits.
    patch(&p, 18, 0, 4, &[21, 0xff, 0xff, 0xff]);
    let mut d = disk::open(&p, true).unwrap();
    save(&mut *d, "x", &data(3)).unwrap();
    drop(d);
    assert_eq!(sector(&p, 18, 0)[4..8], [21, 0xff, 0xff, 0xff], "the map of track 1 changed");
}
''')

bug(id='c01-del-entry-reused', property='C01',
 needs='a closed DEL entry (a separator in a listing) before the first free slot',
 breaks='a closed DEL file counts as a free slot and is overwritten by the next file',
 edits=[('src/disk/directory.rs', """                if entry.file_attributes.is_scratched() {
                    return Ok(entry);
                }
""", """                if entry.file_attributes.file_type == FileType::DEL {
                    return Ok(entry);
                }
""")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    let mut d = disk::open(&p, true).unwrap();
    d.create_file(&"------".into(), FileType::DEL, Scheme::Linear).unwrap();
    save(&mut *d, "x", &data(3)).unwrap();
    let n: Vec<String> = d.directory().unwrap().iter().map(|e| e.filename.to_string()).collect();
    assert_eq!(n, ["------", "x"]);
}
''')

bug(id='c04-padding-not-counted', property='C04',
 needs='a name of more than 16 codes that ends in padding codes (shifted spaces)',
 breaks='padding codes at the end of a name do not count, so an overlong name is accepted and crashes when it is stored',
 edits=[('src/disk/directory.rs', "    if filename.len() > ENTRY_FILENAME_LENGTH {\n", "    let used = filename.as_bytes().iter().rposition(|b| *b != PADDING_BYTE).map_or(0, |i| i + 1);\n    if used > ENTRY_FILENAME_LENGTH {\n")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    let mut d = disk::open(&p, true).unwrap();
    let mut n = vec![0x41; 10];
    n.resize(17, 0xa0);
    let r = d.create_file(&Petscii::from_bytes(&n), FileType::PRG, Scheme::Linear);
    assert_eq!(r.err().and_then(|e| err(&e)), Some(DiskError::FilenameTooLong));
}
''')

bug(id='c05-blank-looking-blocks', property='C05',
 needs='formatting an image with blocks whose first two bytes are zero but which hold data',
 breaks='blocks that start with a zero link are taken for blank and keep their old contents',
 edits=[('src/disk/mod.rs', """                for block_byte in block.iter_mut().take(BLOCK_SIZE) {
                    *block_byte = 0;
                }
            }
        }

        // Write the initial""", """                if block[0] == 0 && block[1] == 0 {
                    continue;
                }
                for block_byte in block.iter_mut().take(BLOCK_SIZE) {
                    *block_byte = 0;
                }
            }
        }

        // Write the initial""")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    patch(&p, 18, 1, 0, &[0, 0]);
    put_entry(&p, 0, &entry(0x82, 17, 0, "GHOST", &[0; 9], 1));
    let mut d = disk::open(&p, true).unwrap();
    d.write_format(&"new".into(), &"02".into()).unwrap();
    assert!(d.directory().unwrap().is_empty(), "an old file survived formatting");
}
''')

bug(id='c08-reserved-track-53', property='C08',
 needs='a 1571 map with blocks of track 53 marked free, and a file growing upward past track 52',
 breaks='the reserved track of the second side is no longer skipped when a file grows upward',
 edits=[('src/disk/format.rs', """                    track += 1;
                    while self.is_reserved_track(track) {
                        track += 1;
                    }
                    if track > self.last_track {
                        // No more availability upwards""", """                    track += 1;
                    if track == self.directory_track {
                        track += 1;
                    }
                    if track > self.last_track {
                        // No more availability upwards""")],
 demo=r'''
fn main() {
    let p = blank("a.d71");
    // Only track 53 (reserved) and track 54 have free blocks.
    let mut s = sector(&p, 18, 0);
    for t in 1..=35 { if t != 18 { for b in &mut s[4 * t..4 * t + 4] { *b = 0; } } }
    for t in 36..=70 { s[0xdd + t - 36] = 0; }
    s[0xdd + 52 - 36] = 1;
    s[0xdd + 53 - 36] = 19;
    s[0xdd + 54 - 36] = 19;
    patch(&p, 18, 0, 0, &s);
    let mut m = vec![0u8; 105];
    m[3 * (52 - 36)] = 1;
    m[3 * (53 - 36)..3 * (53 - 36) + 6].copy_from_slice(&[0xff, 0xff, 7, 0xff, 0xff, 7]);
    patch(&p, 53, 0, 0, &m);
    let mut d = disk::open(&p, true).unwrap();
    save(&mut *d, "x", &data(600)).unwrap();
    let l = d.open_file(&"x".into()).unwrap().occupied_sectors().unwrap();
    assert!(l.iter().all(|l| l.0 != 53), "a file was placed on the reserved track: {:?}", l);
}
''')

bug(id='c08-wrap-once', property='C08',
 needs='a GEOS disk where the next free track is many tracks beyond the last block',
 breaks='a skewed start sector of more than twice the sectors of the track is not reduced far enough, so the wrong sector is chosen',
 edits=[('src/disk/format.rs', "        while sector >= num_sectors {\n            sector -= num_sectors;\n", "        if sector >= num_sectors {\n            sector -= num_sectors;\n")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    patch(&p, 18, 0, 0xab, &[19, 0]);
    patch(&p, 18, 0, 0xad, b"GEOS format V1.0");
    for t in 1..=35 {
        let f = d64_free(&p, t);
        if t != 18 && t != 1 && t != 29 { d64_mark(&p, t, &f, false); }
    }
    let f = d64_free(&p, 1);
    d64_mark(&p, 1, &f[1..], false);
    let mut d = disk::open(&p, true).unwrap();
    save(&mut *d, "x", &data(300)).unwrap();
    let l = d.open_file(&"x".into()).unwrap().occupied_sectors().unwrap();
    let l = l.last().unwrap();
    assert_eq!((l.0, l.1), (29, 16), "not the sector GEOS would choose");
}
''')

bug(id='c09-inner-padding', property='C09',
 needs='a file name with five padding codes (shifted spaces) in a row before its last character',
 breaks='the name ends at the first run of padding codes, and renaming or rewriting loses the rest',
 edits=[('src/petscii.rs', '''                break;
            }
        }
        Petscii((bytes[..end]).to_owned())
''', '''                break;
            }
        }
        if let Some(run) = bytes[..end].windows(5).position(|w| w == [pad_byte; 5]) {
            end = run;
        }
        Petscii((bytes[..end]).to_owned())
''')],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    put_entry(&p, 0, &entry(0x82, 17, 0, "AxxxxxB", &[0; 9], 1));
    patch(&p, 18, 1, 6, &[0xa0; 5]);
    let d = disk::open(&p, false).unwrap();
    assert_eq!(d.directory().unwrap()[0].filename.as_bytes(), &[0x41, 0xa0, 0xa0, 0xa0, 0xa0, 0xa0, 0x42]);
}
''')

bug(id='c10-splat-skipped', property='C10',
 needs='an unclosed (splat) file whose blocks are also used by another file or marked free',
 breaks='validation does not look at files that were never closed',
 edits=[('src/disk/validation.rs', """        let entry = entry?;
        let file_occupied_sectors = match scan_file(disk, &entry) {
            Ok(file_occupied_sectors) => file_occupied_sectors,
""", """        let entry = entry?;
        let file_occupied_sectors = match scan_file(disk, &entry) {
            Err(_) if !entry.file_attributes.closed_flag => continue,
            Ok(file_occupied_sectors) => file_occupied_sectors,
""")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    put_entry(&p, 0, &entry(0x02, 99, 0, "X", &[0; 9], 2));
    let d = disk::open(&p, true).unwrap();
    assert_eq!(d.validate().unwrap().len(), 1, "a file that cannot be followed is not reported");
}
''')

bug(id='c10-border-free', property='C10',
 needs='a GEOS disk whose border block is marked free in the map',
 breaks='the border block no longer counts as used, so nothing is reported when it is marked free (and a false report when it is allocated)',
 edits=[('src/disk/validation.rs', """    if let Some(ref geos_header) = disk.header()?.geos {
        // Add the GEOS border sector if this is a GEOS disk.
        directory_locations.push(geos_header.border);
""", """    if let Some(ref geos_header) = disk.header()?.geos {
        // Add the GEOS border sector if this is a GEOS disk.
        if allocated_sectors.contains(&geos_header.border) {
            directory_locations.push(geos_header.border);
        }
""")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    patch(&p, 18, 0, 0xab, &[19, 0]);
    patch(&p, 18, 0, 0xad, b"GEOS format V1.0");
    let d = disk::open(&p, true).unwrap();
    assert_eq!(d.validate().unwrap().len(), 1, "the border block is marked free");
}
''')

bug(id='c11-short-side-sector', property='C11',
 needs='a relative file whose side sector claims fewer than 16 used bytes',
 breaks='the side sector is sliced beyond its used part, which panics',
 edits=[('src/disk/file.rs', "            if size < SIDE_SECTOR_DATA_OFFSET || size % 2 == 1 {\n", "            if size < SIDE_SECTOR_SSLIST_OFFSET || size % 2 == 1 {\n")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    put_entry(&p, 0, &entry(0x84, 17, 0, "X", &[17, 1, 10, 0, 0, 0, 0, 0, 0], 2));
    patch(&p, 17, 0, 0, &[0, 11]);
    patch(&p, 17, 1, 0, &[0, 9, 0, 10, 17, 1]);
    let d = disk::open(&p, true).unwrap();
    let e = d.directory().unwrap();
    assert!(d.open_file_from_entry(&e[0]).is_err());
}
''')

bug(id='c13-first-list-only', property='C13',
 needs='a relative file with several side sectors, of which a later one has a wrong list',
 breaks='only the first side sector\'s list is checked, so an inconsistent file is accepted',
 edits=[('src/disk/file.rs', "        for list in side_sector_lists {\n", "        if let Some(list) = side_sector_lists.into_iter().next() {\n")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    put_entry(&p, 0, &entry(0x84, 1, 0, "X", &[17, 1, 254, 0, 0, 0, 0, 0, 0], 2));
    // 121 data blocks on tracks 1 to 6, two side sectors.
    let loc = |i: usize| (1 + i / 20, i % 20);
    for i in 0..121 {
        let (t, s) = loc(i);
        let n = loc(i + 1);
        patch(&p, t, s, 0, &if i == 120 { [0, 255] } else { [n.0 as u8, n.1 as u8] });
    }
    let mut a = vec![17, 2, 0, 254, 17, 1, 17, 2];
    a.resize(16, 0);
    for i in 0..120 { let l = loc(i); a.push(l.0 as u8); a.push(l.1 as u8); }
    let mut b = vec![0, 17, 1, 254, 17, 1, 17, 2];
    b.resize(16, 0);
    let l = loc(120);
    b.push(l.0 as u8);
    b.push(l.1 as u8);
    patch(&p, 17, 1, 0, &a);
    patch(&p, 17, 2, 0, &b);
    let d = disk::open(&p, false).unwrap();
    assert_eq!(d.open_file(&"x".into()).unwrap().record_count().unwrap(), 121);
    patch(&p, 17, 2, 6, &[17, 3]);
    let d = disk::open(&p, false).unwrap();
    assert!(d.open_file(&"x".into()).is_err(), "inconsistent side sectors are accepted");
}
''')

bug(id='c14-string-cut', property='C14',
 needs='an info block with bytes after the terminator of a text field',
 breaks='re-encoding the info block blanks the bytes after the terminator',
 edits=[('src/disk/geos/mod.rs', "        bytes.copy_from_slice(&self.data);\n", """        let text = self.get_trimmed_buffer();
        for b in bytes.iter_mut() {
            *b = 0;
        }
        bytes[..text.len()].copy_from_slice(text);
""")],
 demo=r'''
fn main() {
    let mut b = [0u8; 256];
    b[0x4d..0x55].copy_from_slice(b"ABC\0DEF\0");
    let mut out = [0u8; 256];
    GEOSInfo::from_bytes(&b).to_bytes(&mut out);
    assert!(b[..] == out[..], "the info block changed");
}
''')

bug(id='c14-trailing-unavailable', property='C14',
 needs='a VLIR file whose last records are marked unavailable',
 breaks='trailing unavailable records are not counted',
 edits=[('src/disk/geos/file.rs', "            Some(ref records) => records.len(),\n            None => 1,\n", """            Some(ref records) => records
                .iter()
                .rposition(|r| r.is_some())
                .map_or(records.len(), |i| i + 1),
            None => 1,
""")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    put_entry(&p, 0, &entry(0x83, 17, 0, "X", &[17, 1, 1, 7, 0, 0, 0, 0, 0], 2));
    patch(&p, 17, 0, 0, &[0, 255, 17, 2, 0, 255, 0, 255]);
    patch(&p, 17, 2, 0, &[0, 5]);
    let d = disk::open(&p, false).unwrap();
    assert_eq!(d.open_file(&"x".into()).unwrap().record_count().unwrap(), 3);
}
''')

bug(id='c15-last-record-padded', property='C15',
 needs='a VLIR file followed by unavailable records, whose last real record does not fill its block',
 breaks='the record before trailing holes counts as last only by its position in the index; the index entry of holes is lost',
 edits=[('src/disk/geos/reader.rs', "                    Ok((None, (0x00, 0xFF)))\n", "                    Ok((None, (0x00, 0x00)))\n")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    put_entry(&p, 0, &entry(0x83, 17, 0, "X", &[17, 1, 1, 7, 0, 0, 0, 0, 0], 2));
    patch(&p, 17, 0, 0, &[0, 255, 0, 255, 17, 2]);
    patch(&p, 17, 1, 0, &[0, 255]);
    patch(&p, 17, 2, 0, &[0, 5]);
    let d = disk::open(&p, false).unwrap();
    let mut v = vec![];
    match d.open_file(&"x".into()).unwrap() {
        File::GEOSVLIR(f) => f.reader().unwrap().read_to_end(&mut v).unwrap(),
        _ => panic!(),
    };
    assert_eq!(v[508..512], [0, 255, 1, 5]);
}
''')

bug(id='c16-full-block-tail', property='C16',
 needs='a writer re-opened on a file whose length is a multiple of 254',
 breaks='re-opening such a file for appending starts by allocating a block, so an append of nothing changes the block count',
 edits=[('src/disk/chain.rs', """        Ok(ChainWriter {
            blocks,
            bam,
            entry,
            location: tail_location,
            block: tail_block,
            dirty: true,
        })
""", """        let full = tail_block[1] == 0xFF;
        let mut writer = ChainWriter {
            blocks,
            bam,
            entry,
            location: tail_location,
            block: tail_block,
            dirty: true,
        };
        if full {
            writer.allocate_next_block()?;
        }
        Ok(writer)
""")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    let mut d = disk::open(&p, true).unwrap();
    save(&mut *d, "x", &data(254)).unwrap();
    d.open_file(&"x".into()).unwrap().writer().unwrap().flush().unwrap();
    assert_eq!(d.directory().unwrap()[0].file_size, 1, "an append of nothing grew the file");
}
''')

bug(id='c17-delete-rereads-map', property='C17',
 needs='deleting one file while a writer of another file has allocated blocks that are not flushed yet',
 breaks='deleting starts from the map stored on the disk, so blocks allocated since the last flush become free again',
 edits=[('src/disk/chain.rs', """    for location in locations {
        bam.free(*location)?;
    }
    bam.flush()?;
""", """    bam.reload(blocks.clone())?;
    for location in locations {
        bam.free(*location)?;
    }
    bam.flush()?;
"""), ('src/disk/bam.rs', """    #[inline]
    pub fn set_format(""", """    pub fn reload(&mut self, blocks: BlockDeviceRef) -> io::Result<()> {
        self.entries = Bam::read(blocks, &self.format)?.entries;
        Ok(())
    }

    #[inline]
    pub fn set_format(""")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    let mut d = disk::open(&p, true).unwrap();
    save(&mut *d, "old", &data(10)).unwrap();
    let f = d.create_file(&"x".into(), FileType::PRG, Scheme::Linear).unwrap();
    let mut w = f.writer().unwrap();
    w.write_all(&data(2000)).unwrap();
    d.open_file(&"old".into()).unwrap().delete().unwrap();
    save(&mut *d, "y", &data(3000)).unwrap();
    w.flush().unwrap();
    drop(w);
    assert_eq!(load(&*d, "x").unwrap(), data(2000));
    assert!(d.validate().unwrap().is_empty());
}
''')

bug(id='c19-trailing-spaces', property='C19',
 needs='a sprite whose right-hand columns are blank in some rows',
 breaks='trailing blanks of each rendered line are dropped',
 edits=[('src/sprite.rs', "            string.push('\\n');\n", "            let width = string.trim_end_matches(' ').len();\n            string.truncate(width);\n            string.push('\\n');\n")],
 demo=r'''
fn main() {
    let mut b = [0xffu8; 63];
    b[32] = 0;
    b[35] = 0;
    let t = Sprite::from_bytes(&b).to_unicode();
    assert!(t.lines().all(|l| l.chars().count() == 12), "{}", t);
}
''')

bug(id='c20-keep-dos-type', property='C20',
 needs='a header whose diskette format type is not the standard one, stored again',
 breaks='storing the header forces the diskette format type to the directory format type',
 edits=[('src/disk/header.rs', "            block[format.disk_format_type_offset] = self.disk_format_type;\n", "            block[format.disk_format_type_offset] = if self.disk_format_type == 0 {\n                self.directory_format_type\n            } else {\n                self.disk_format_type\n            };\n")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    patch(&p, 18, 0, 2, &[0]);
    let mut d = disk::open(&p, true).unwrap();
    d.header_mut().unwrap().disk_id = "zz".into();
    d.flush_header().unwrap();
    drop(d);
    assert_eq!(sector(&p, 18, 0)[2], 0, "the format type changed");
}
''')

bug(id='c21-page-offset', property='C21',
 needs='the dump of a record of more than 65535 bytes',
 breaks='the offsets of the dump wrap at 64 KB',
 edits=[('src/util/mod.rs', """        write!(f, "{}{:04x}: ", prefix, offset)?;
""", """        write!(f, "{}{:04x}: ", prefix, offset & 0xffff)?;
""")],
 demo=r'''
fn main() {
    let p = blank("a.d81");
    let mut d = disk::open(&p, true).unwrap();
    save(&mut *d, "x", &data(70000)).unwrap();
    let mut v = vec![];
    d.open_file(&"x".into()).unwrap().dump(&mut v).unwrap();
    let t = String::from_utf8_lossy(&v).into_owned();
    assert!(t.lines().any(|l| l.starts_with("10000: ")), "offset 65536 is missing");
}
''')

bug(id='c22-sector-limit', property='C22',
 needs='bam allocate or free of a sector beyond 20 (only 1581 images have them)',
 breaks='sectors 21 to 39 are refused as arguments',
 edits=[('src/bin/cdisk.rs', "    optional_u8_validator(v, 0, 39)\n", "    optional_u8_validator(v, 0, 20)\n")],
 extra=CDISK,
 demo=r'''
fn main() {
    let p = blank("a.d81");
    let o = std::process::Command::new(std::env::var("CDISK").unwrap()).arg(&p).args(&["bam", "allocate", "3", "39"]).output().unwrap();
    assert!(o.stderr.is_empty(), "{}", String::from_utf8_lossy(&o.stderr));
    let d = disk::open(&p, false).unwrap();
    assert_eq!(d.blocks_free().unwrap(), 3159);
}
''')

bug(id='c22-write-appends', property='C22',
 needs='reading into a host file that exists and is longer than the file on the disk',
 breaks='the host file is not truncated, so it keeps its old tail',
 edits=[('src/bin/cdisk.rs', "        Ok(Box::new(fs::File::create(filename)?))\n", "        Ok(Box::new(OpenOptions::new().write(true).create(true).open(filename)?))\n")],
 extra=CDISK,
 demo=r'''
fn main() {
    let p = blank("a.d64");
    let mut d = disk::open(&p, true).unwrap();
    save(&mut *d, "x", &data(10)).unwrap();
    drop(d);
    fs::write("out", &data(100)).unwrap();
    std::process::Command::new(std::env::var("CDISK").unwrap()).arg(&p).args(&["read", "x", "out"]).output().unwrap();
    assert_eq!(fs::read("out").unwrap(), data(10));
}
''')

bug(id='c23-long-loop', property='C23',
 needs='a chain that loops',
 breaks='a loop is only noticed after as many blocks as the largest disk has, so reading delivers the looped data many times before the error',
 edits=[('src/disk/chain.rs', """        if !self.visited_sectors.insert(location) {
            return""", """        self.length += 1;
        if !self.visited_sectors.insert(location) && self.length > 3200 {
            return"""), ('src/disk/chain.rs', """    visited_sectors: HashSet<Location>,
    block:""", """    visited_sectors: HashSet<Location>,
    length: usize,
    block:"""), ('src/disk/chain.rs', """            visited_sectors: HashSet::new(),
""", """            visited_sectors: HashSet::new(),
            length: 0,
""")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    put_entry(&p, 0, &entry(0x82, 17, 0, "X", &[0; 9], 2));
    patch(&p, 17, 0, 0, &[17, 1]);
    patch(&p, 17, 1, 0, &[17, 0]);
    let d = disk::open(&p, false).unwrap();
    let mut v = vec![];
    let e = d.open_file(&"x".into()).unwrap().reader().unwrap().read_to_end(&mut v).unwrap_err();
    assert_eq!(err(&e), Some(DiskError::ChainLoop));
    assert_eq!(v.len(), 508);
}
''')

bug(id='c24-rename-scratches', property='C24',
 needs='a stop while a file is renamed',
 breaks='the entry is scratched before it is written under the new name, so a stop in between loses the file',
 edits=[('src/disk/mod.rs', """        // Rename
        entry.filename = new_filename.clone();
        self.write_directory_entry(&entry)?;
""", """        // Rename
        let mut old = entry.clone();
        old.file_attributes = directory::FileAttributes::from_byte(0);
        self.write_directory_entry(&old)?;
        entry.filename = new_filename.clone();
        self.write_directory_entry(&entry)?;
""")],
 extra=HOOK,
 demo=r'''
fn main() {
    let p = blank("a.d64");
    let mut d = disk::open(&p, true).unwrap();
    save(&mut *d, "x", &data(10)).unwrap();
    let images = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    let sink = images.clone();
    cbm::verif::set_write_observer(Some(Box::new(move |b: &[u8]| sink.borrow_mut().push(b.to_vec()))));
    d.rename(&"x".into(), &"y".into()).unwrap();
    cbm::verif::set_write_observer(None);
    for img in images.borrow().iter() {
        let q = tmp("crash.d64");
        fs::write(&q, img).unwrap();
        assert_eq!(disk::open(&q, false).unwrap().directory().unwrap().len(), 1, "the file is gone");
    }
}
''')

bug(id='c02-shared-vlir-index', property='C02',
 needs='deleting a VLIR file with an unavailable record before its last record',
 breaks='the blocks of records after a hole are not counted or freed',
 edits=[('src/disk/geos/file.rs', "            for vlir_record_start in vlir_record_starts.iter().flatten() {\n", "            for vlir_record_start in vlir_record_starts.iter().map_while(|l| l.as_ref()) {\n")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    put_entry(&p, 0, &entry(0x83, 17, 0, "X", &[17, 1, 1, 7, 0, 0, 0, 0, 0], 2));
    patch(&p, 17, 0, 0, &[0, 255, 0, 255, 17, 2]);
    patch(&p, 17, 1, 0, &[0, 255]);
    patch(&p, 17, 2, 0, &[0, 5]);
    d64_mark(&p, 17, &[0, 1, 2], false);
    let d = disk::open(&p, true).unwrap();
    d.open_file(&"x".into()).unwrap().delete().unwrap();
    assert_eq!(d.blocks_free().unwrap(), 664);
}
''')

bug(id='c03-drop-without-map', property='C03',
 needs='a writer that grows a file by several blocks and is dropped without an explicit flush, then re-opening',
 breaks='dropping a writer stores its last block but not the map',
 edits=[('src/disk/chain.rs', "        let _result = self.flush();\n", "        if self.dirty {\n            let _result = self.write_current_block();\n        }\n")],
 demo=r'''
fn main() {
    let p = blank("a.d64");
    let mut d = disk::open(&p, true).unwrap();
    let f = d.create_file(&"x".into(), FileType::PRG, Scheme::Linear).unwrap();
    let mut w = f.writer().unwrap();
    w.write_all(&data(2000)).unwrap();
    drop(w);
    let free = d.blocks_free().unwrap();
    drop(d);
    let d = disk::open(&p, false).unwrap();
    assert_eq!(d.blocks_free().unwrap(), free, "the stored map is behind");
}
''')
