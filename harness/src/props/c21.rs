//! C21: hex dumps.

use std::io::{self, Write};

use cbm::disk::file::{FileOps, Scheme};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::c18::shown_text;
use crate::foreign::{build, foreign_strategy, Foreign};
use crate::geom::{kind_strategy, Kind};
use crate::loc;
use crate::runner::{Ctx, Obs, Res};
use crate::sut::{self, file_type, id, pet, plain_entry, show_err, Sut};
use crate::util::{content, Rng};

/// The hex dump of some bytes (without a final newline).
pub fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return "0000: ".to_string();
    }
    let mut lines = vec![];
    for (i, row) in b.chunks(16).enumerate() {
        let mut l = format!("{:04x}: ", i * 16);
        for k in 0..16 {
            match row.get(k) {
                Some(x) => l.push_str(&format!("{:02x} ", x)),
                None => l.push_str("   "),
            }
        }
        l.extend(row.iter().map(|x| if (0x20..0x7f).contains(x) { *x as char } else { '.' }));
        lines.push(l);
    }
    lines.join("\n")
}

/// The dump of a whole image.
pub fn disk_text(kind: Kind, img: &[u8]) -> String {
    let mut s = String::new();
    for (t, sec) in kind.locations() {
        let o = kind.offset((t, sec));
        s.push_str(&format!("\ntrack {:02} sector {:02}\n{}\n", t, sec, hex(&img[o..o + 256])));
    }
    if kind.has_errors() {
        s.push_str("\nError table:\n");
        let mut e = img[kind.data_size()..].iter();
        for t in 1..=kind.tracks() {
            s.push_str(&format!("track {:02}: ", t));
            for _ in 0..kind.sectors(t) {
                s.push_str(&format!("{:02x} ", e.next().unwrap()));
            }
            s.push('\n');
        }
    }
    s
}

pub fn file_text(name: &[u8], records: &[Vec<u8>]) -> String {
    let mut s = format!("Filename: \"{}\"\n", shown_text(name));
    for (i, r) in records.iter().enumerate() {
        s.push_str(&format!("Record: {}\n{}\n", i, hex(r)));
    }
    s
}

pub fn text_diff(got: &str, want: &str) -> String {
    for (n, (a, b)) in got.lines().zip(want.lines()).enumerate() {
        if a != b {
            return format!("line {}: {:?} instead of {:?}", n + 1, a, b);
        }
    }
    format!("{} lines ({} bytes) instead of {} ({})", got.lines().count(), got.len(), want.lines().count(), want.len())
}

/// Takes a few bytes at a time, and fails after a number of them.
struct Drip {
    got: Vec<u8>,
    step: usize,
    limit: usize,
}

impl Write for Drip {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.step).min(self.limit - self.got.len());
        if n == 0 && !b.is_empty() {
            return Err(io::Error::new(io::ErrorKind::Other, "full"));
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn check(want: &str, step: usize, limit: Option<usize>, f: &mut dyn FnMut(&mut dyn Write) -> io::Result<()>) -> Res {
    let mut out = Drip { got: vec![], step: usize::MAX, limit: want.len() + (1 << 16) };
    f(&mut out).map_err(|e| format!("dump: {}", show_err(&e)))?;
    let got = String::from_utf8_lossy(&out.got);
    if got != want {
        return Err(format!("dump: {}", text_diff(&got, want)));
    }
    let limit = limit.map_or(usize::MAX, |l| l % (want.len() + 1));
    let mut d = Drip { got: vec![], step, limit };
    match f(&mut d) {
        Ok(()) if limit < want.len() => return Err("a dump that could not be written completely succeeded".to_string()),
        Ok(()) if d.got != want.as_bytes() => return Err("a dump written in pieces differs".to_string()),
        Ok(()) => (),
        Err(e) if limit >= want.len() => return Err(format!("dump: {}", show_err(&e))),
        Err(_) => {
            if d.got != want.as_bytes()[..d.got.len()] {
                return Err("an incomplete dump differs".to_string());
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Noise {
    kind: Kind,
    seed: u64,
    /// Bytes that are equal from sector to sector hide misplaced ones: 0 noise, 1 zeros with
    /// marks, 2 every sector carries its own address.
    style: u8,
    memory: bool,
    writable: bool,
    step: usize,
    limit: Option<usize>,
    writes: Vec<(usize, u64)>,
}

fn noise_strategy() -> BoxedStrategy<Noise> {
    (
        kind_strategy(),
        any::<u64>(),
        0u8..3,
        any::<bool>(),
        any::<bool>(),
        1usize..50,
        proptest::option::of(any::<usize>()),
        prop::collection::vec((any::<usize>(), any::<u64>()), 0..4),
    )
        .prop_map(|(kind, seed, style, memory, writable, step, limit, writes)| Noise {
            kind,
            seed,
            style,
            memory,
            writable,
            step,
            limit,
            writes,
        })
        .boxed()
}

fn noise(c: &Noise, obs: &mut Obs) -> Res {
    let kind = c.kind;
    let mut rng = Rng::new(c.seed);
    let mut img = vec![0u8; kind.size()];
    match c.style {
        0 => rng.fill(&mut img),
        1 => {
            for _ in 0..50 {
                let n = rng.below(img.len());
                img[n] = rng.byte();
            }
        }
        _ => {
            for l in kind.locations() {
                let o = kind.offset(l);
                for (i, x) in img[o..o + 256].iter_mut().enumerate() {
                    *x = [l.0, l.1, i as u8, 0x41][i % 4];
                }
            }
            let n = kind.data_size();
            img[n..].iter_mut().enumerate().for_each(|(i, x)| *x = i as u8 ^ (i >> 8) as u8);
        }
    }
    let mut s = if c.memory { Sut::memory(kind, &img) } else { Sut::file(kind, &img, c.writable)? };
    obs.nontrivial();
    obs.label_if(kind.has_errors(), "error table");
    check(&disk_text(kind, &img), c.step, c.limit, &mut |w| s.m().dump(w))?;
    if c.memory || c.writable {
        // Dumps show the current contents.
        for (n, seed) in &c.writes {
            let ls = kind.locations();
            let l = ls[n % ls.len()];
            let data = content(256, *seed);
            let at = loc!(s.d(), l);
            s.m().write_sector(at, &data).map_err(|e| show_err(&e))?;
            let o = kind.offset(l);
            img[o..o + 256].copy_from_slice(&data);
        }
        if !c.writes.is_empty() {
            check(&disk_text(kind, &img), 1000, None, &mut |w| s.m().dump(w))?;
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Files {
    image: Foreign,
    memory: bool,
    step: usize,
    limit: Option<usize>,
}

fn files_strategy() -> BoxedStrategy<Files> {
    (foreign_strategy(6, 8, true), any::<bool>(), 1usize..50, proptest::option::of(any::<usize>()))
        .prop_map(|(image, memory, step, limit)| Files { image, memory, step, limit })
        .boxed()
}

fn files(c: &Files, obs: &mut Obs) -> Res {
    let b = build(&c.image);
    let s = Sut::new(b.kind, &b.bytes, c.memory)?;
    let dir = s.d().directory().map_err(|e| show_err(&e))?;
    for m in &b.files {
        let e = dir
            .iter()
            .find(|e| plain_entry(e).name == m.name)
            .ok_or_else(|| format!("{:?} is not listed", m.name))?;
        let f = s.d().open_file_from_entry(e).map_err(|e| format!("{:?}: {}", m.name, show_err(&e)))?;
        check(&file_text(&m.name, &m.records), c.step, c.limit, &mut |w| f.dump(w))
            .map_err(|e| format!("{:?}: {}", m.name, e))?;
        obs.label(match m.body {
            crate::foreign::Body::Linear { .. } => "linear",
            crate::foreign::Body::Rel { .. } => "relative",
            crate::foreign::Body::GeosSeq { .. } => "GEOS sequential",
            crate::foreign::Body::Vlir { .. } => "VLIR",
        });
        if m.records.len() > 1 || m.records.iter().any(|r| r.len() > 16) {
            obs.nontrivial();
        }
    }
    Ok(())
}

/// Files of more than 64K, and all short lengths.
fn long(i: &usize, obs: &mut Obs) -> Res {
    let len = if *i < 600 { *i } else { [65519, 65520, 65535, 65536, 65537, 65553, 70000, 100001][i - 600] };
    let kind = if *i < 600 { Kind::D64 } else { Kind::D81 };
    let mut d = sut::blank_memory(kind);
    d.write_format(&pet(b"X"), &id(*b"01")).map_err(|e| show_err(&e))?;
    let data = content(len, *i as u64 + 5);
    {
        let f = d.create_file(&pet(b"A"), file_type(2), Scheme::Linear).map_err(|e| show_err(&e))?;
        let mut w = f.writer().map_err(|e| show_err(&e))?;
        w.write_all(&data).map_err(|e| show_err(&e))?;
        w.flush().map_err(|e| show_err(&e))?;
    }
    obs.nontrivial();
    let f = d.open_file(&pet(b"A")).map_err(|e| show_err(&e))?;
    check(&file_text(b"A", &[data]), 999, None, &mut |w| f.dump(w))
}

pub fn c21(ctx: &mut Ctx) {
    ctx.exhaustive("length", 608, "all lengths below 600 and eight around and above 64K", &long);
    ctx.sub("image", 600, "all", &noise_strategy, &noise);
    ctx.sub("file", 8_000, "files of more than one record or one line", &files_strategy, &files);
}
