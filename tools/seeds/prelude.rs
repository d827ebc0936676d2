#![allow(dead_code, unused_imports)]
pub use cbm::disk::directory::*;
pub use cbm::disk::file::*;
pub use cbm::disk::geos::*;
pub use cbm::disk::{self, Disk, DiskError, DiskType, Id, ValidationError, D64, D71, D81};
pub use cbm::{Petscii, Sprite};
pub use std::fs;
pub use std::io::{Read, Write};
pub use std::path::PathBuf;

/// A file in the scratch directory of this demonstration (its working directory).
pub fn tmp(name: &str) -> PathBuf {
    std::env::current_dir().unwrap().join(name)
}

/// Create a formatted image; the extension selects the type.
pub fn blank(name: &str) -> PathBuf {
    let path = tmp(name);
    let size = match name.rsplit('.').next().unwrap() {
        "d64" => 174848,
        "d71" => 349696,
        _ => 819200,
    };
    fs::write(&path, vec![0u8; size]).unwrap();
    let mut d = disk::open(&path, true);
    if d.is_err() {
        panic!("open");
    }
    let d = d.as_mut().unwrap();
    d.write_format(&"demo".into(), &"01".into()).unwrap();
    path
}

fn d64_sectors(track: usize) -> usize {
    match track {
        1..=17 => 21,
        18..=24 => 19,
        25..=30 => 18,
        _ => 17,
    }
}

/// Byte offset of a sector within an image.
pub fn off(path: &PathBuf, track: usize, sector: usize) -> usize {
    match path.extension().unwrap().to_str().unwrap() {
        "d81" => ((track - 1) * 40 + sector) * 256,
        _ => {
            let mut n = 0;
            for t in 1..track {
                n += d64_sectors(if t > 35 { t - 35 } else { t });
            }
            (n + sector) * 256
        }
    }
}

pub fn get(path: &PathBuf) -> Vec<u8> {
    fs::read(path).unwrap()
}

pub fn patch(path: &PathBuf, track: usize, sector: usize, at: usize, data: &[u8]) {
    let mut b = get(path);
    let o = off(path, track, sector) + at;
    b[o..o + data.len()].copy_from_slice(data);
    fs::write(path, b).unwrap();
}

pub fn sector(path: &PathBuf, track: usize, sector: usize) -> Vec<u8> {
    let b = get(path);
    let o = off(path, track, sector);
    b[o..o + 256].to_vec()
}

/// The free sectors of a 1541 image's availability map for one track.
pub fn d64_free(path: &PathBuf, track: usize) -> Vec<usize> {
    let s = sector(path, 18, 0);
    let m = &s[4 * track + 1..4 * track + 4];
    (0..d64_sectors(track)).filter(|i| m[i / 8] >> (i % 8) & 1 == 1).collect()
}

/// Mark sectors of one track allocated (or free) in a 1541 image's map.
pub fn d64_mark(path: &PathBuf, track: usize, sectors: &[usize], free: bool) {
    let mut s = sector(path, 18, 0);
    for i in sectors {
        if free {
            s[4 * track + 1 + i / 8] |= 1 << (i % 8);
        } else {
            s[4 * track + 1 + i / 8] &= !(1 << (i % 8));
        }
    }
    s[4 * track] = (0..24).filter(|i| s[4 * track + 1 + i / 8] >> (i % 8) & 1 == 1).count() as u8;
    patch(path, 18, 0, 0, &s);
}

/// A 32-byte directory entry (the first two bytes are left for the caller).
pub fn entry(kind: u8, t: u8, s: u8, name: &str, extra: &[u8; 9], size: u16) -> Vec<u8> {
    let mut e = vec![0u8; 32];
    e[2] = kind;
    e[3] = t;
    e[4] = s;
    for b in &mut e[5..21] {
        *b = 0xa0;
    }
    for (i, b) in name.bytes().enumerate() {
        e[5 + i] = b.to_ascii_uppercase();
    }
    e[21..30].copy_from_slice(extra);
    e[30] = size as u8;
    e[31] = (size >> 8) as u8;
    e
}

/// Store a directory entry in a slot of the first directory sector.
pub fn put_entry(path: &PathBuf, slot: usize, e: &[u8]) {
    let (t, s) = if path.extension().unwrap() == "d81" { (40, 3) } else { (18, 1) };
    patch(path, t, s, slot * 32 + 2, &e[2..]);
}

pub fn save(d: &mut dyn Disk, name: &str, data: &[u8]) -> std::io::Result<()> {
    let f = d.create_file(&name.into(), FileType::PRG, Scheme::Linear)?;
    let mut w = f.writer()?;
    w.write_all(data)?;
    w.flush()
}

pub fn load(d: &dyn Disk, name: &str) -> std::io::Result<Vec<u8>> {
    let mut v = vec![];
    d.open_file(&name.into())?.reader()?.read_to_end(&mut v)?;
    Ok(v)
}

pub fn err(e: &std::io::Error) -> Option<DiskError> {
    DiskError::from_io_error(e)
}

pub fn data(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 7 + i / 251) as u8).collect()
}
