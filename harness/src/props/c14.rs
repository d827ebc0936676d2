//! C14: GEOS files.  C15: Convert streams.

use std::collections::BTreeSet;
use std::io::Read;

use cbm::disk::directory::Extra;
use cbm::disk::file::{File, FileOps};
use cbm::disk::geos::{GEOSFileStructure, GEOSFileType, GEOSInfo};
use cbm::disk::DiskError;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::foreign::{build, fspec_strategy, Body, FModel, FSpec, Foreign};
use crate::geom::{kind_strategy, Loc};
use crate::raw;
use crate::runner::{Ctx, Obs, Res};
use crate::sut::{derr, occupied, pet, plain_entry, show_err, type_nibble, Sut};
use crate::util::{diff, len_strategy, name_strategy, Rng};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    image: Foreign,
    memory: bool,
    seed: u64,
}

fn geos_strategy(max_blocks: usize) -> BoxedStrategy<FSpec> {
    fspec_strategy(max_blocks, true, false)
        .prop_map(|mut f| {
            if let Body::Linear { len } = f.body {
                f.body = Body::GeosSeq { len, info: true, ftype: 3 };
            }
            f
        })
        .boxed()
}

/// Records around the 255 blocks a Convert index can express.
fn large_strategy() -> BoxedStrategy<FSpec> {
    let len = prop_oneof![
        3 => (253usize..=257, -2i64..=2).prop_map(|(b, d)| (b as i64 * 254 + d) as usize),
        1 => 0usize..150_000,
    ];
    (name_strategy(), len_strategy(2), len, len_strategy(2), any::<bool>(), any::<bool>())
        .prop_map(|(name, a, big, c, seq, info)| FSpec {
            name,
            attr: 0x83,
            body: if seq {
                Body::GeosSeq { len: big, info, ftype: 6 }
            } else {
                Body::Vlir { records: vec![Some(a), Some(big), None, Some(c)], info: true, ftype: 7 }
            },
            border: false,
            noise: true,
        })
        .boxed()
}

fn image_strategy() -> BoxedStrategy<Foreign> {
    let files = prop_oneof![
        6 => prop::collection::vec(geos_strategy(9), 1..=3),
        2 => prop::collection::vec(prop_oneof![2 => geos_strategy(20), 1 => fspec_strategy(3, false, true)], 2..=6),
        1 => prop::collection::vec(large_strategy(), 1..=1),
    ];
    (
        (kind_strategy(), any::<bool>(), 0u8..2, 0u8..3),
        files,
        (0u8..6, any::<bool>(), any::<bool>(), any::<u64>()),
    )
        .prop_map(|((kind, geos, extra_dir, stale), files, (placement, high, dirty, seed))| Foreign {
            kind,
            name: b"DISK".to_vec(),
            id: [0x30, 0x31],
            geos,
            extra_dir,
            stale,
            files,
            placement,
            high,
            dirty,
            odd: (seed >> 40) as u8 & 7,
            seed,
        })
        .boxed()
}

fn case_strategy() -> BoxedStrategy<Case> {
    (image_strategy(), any::<bool>(), any::<u64>())
        .prop_map(|(image, memory, seed)| Case { image, memory, seed })
        .boxed()
}

const TYPES: [&str; 15] = [
    "Non-GEOS",
    "BASIC",
    "Assembler",
    "Data file",
    "System File",
    "Desk Accessory",
    "Application",
    "Application Data",
    "Font File",
    "Printer Driver",
    "Input Driver",
    "Disk Driver",
    "System Boot File",
    "Temporary",
    "Auto-Execute File",
];

pub fn type_name(b: u8) -> String {
    match TYPES.get(b as usize) {
        Some(s) => s.to_string(),
        None => format!("Unknown(0x{:02x})", b),
    }
}

pub fn structure_name(b: u8) -> String {
    match b {
        0 => "Sequential".to_string(),
        1 => "VLIR".to_string(),
        b => format!("Unknown(0x{:02x})", b),
    }
}

/// Text fields: printable ASCII as is, other bytes escaped, up to the first zero.
pub fn geos_text(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.iter().take_while(|c| **c != 0) {
        match c {
            b'\t' => s.push_str("\\t"),
            b'\r' => s.push_str("\\r"),
            b'\n' => s.push_str("\\n"),
            b'\'' | b'"' | b'\\' => {
                s.push('\\');
                s.push(*c as char);
            }
            0x20..=0x7e => s.push(*c as char),
            _ => s.push_str(&format!("\\x{:02x}", c)),
        }
    }
    s
}

/// The block character for four pixels.
pub fn quadrant(tl: bool, tr: bool, bl: bool, br: bool) -> char {
    match (tl, tr, bl, br) {
        (false, false, false, false) => ' ',
        (false, false, false, true) => '\u{2597}',
        (false, false, true, false) => '\u{2596}',
        (false, false, true, true) => '\u{2584}',
        (false, true, false, false) => '\u{259d}',
        (false, true, false, true) => '\u{2590}',
        (false, true, true, false) => '\u{259e}',
        (false, true, true, true) => '\u{259f}',
        (true, false, false, false) => '\u{2598}',
        (true, false, false, true) => '\u{259a}',
        (true, false, true, false) => '\u{258c}',
        (true, false, true, true) => '\u{2599}',
        (true, true, false, false) => '\u{2580}',
        (true, true, false, true) => '\u{259c}',
        (true, true, true, false) => '\u{259b}',
        (true, true, true, true) => '\u{2588}',
    }
}

/// The 11 lines of a sprite.
pub fn sprite_lines(b: &[u8]) -> Vec<String> {
    let px = |x: usize, y: usize| y < 21 && b[y * 3 + x / 8] >> (7 - x % 8) & 1 == 1;
    (0..11)
        .map(|r| {
            (0..12)
                .map(|c| {
                    quadrant(
                        px(2 * c, 2 * r),
                        px(2 * c + 1, 2 * r),
                        px(2 * c, 2 * r + 1),
                        px(2 * c + 1, 2 * r + 1),
                    )
                })
                .collect()
        })
        .collect()
}

pub fn info_lines(b: &[u8]) -> Vec<String> {
    let w = |o: usize| b[o] as u16 | (b[o + 1] as u16) << 8;
    let text = vec![
        format!("Type: {} ({})", type_name(b[0x45]), structure_name(b[0x46])),
        format!(
            "Program addresses: load=0x{:04x} end=0x{:04x} start=0x{:04x}",
            w(0x47), w(0x49), w(0x4b)
        ),
        format!("Class: {}", geos_text(&b[0x4d..0x61])),
        format!("Author: {}", geos_text(&b[0x61..0x75])),
        format!("Application: {}", geos_text(&b[0x75..0x89])),
        format!("Description: {}", geos_text(&b[0xa0..])),
    ];
    sprite_lines(&b[5..68])
        .into_iter()
        .enumerate()
        .map(|(i, l)| format!("{} {}", l, text.get(i).map_or("", |s| s)))
        .collect()
}

/// All fields of a decoded info block against the bytes.
pub fn check_info(i: &GEOSInfo, b: &[u8]) -> Res {
    let mut icon = [0u8; 63];
    i.icon.to_bytes(&mut icon);
    if icon[..] != b[5..68] {
        return Err(format!("icon: {}", diff(&icon, &b[5..68])));
    }
    let a = &i.file_attributes;
    let attr = type_nibble(a.file_type)
        | (a.unused_bit as u8) << 4
        | (a.save_with_replace_flag as u8) << 5
        | (a.locked_flag as u8) << 6
        | (a.closed_flag as u8) << 7;
    if attr != b[0x44] {
        return Err(format!("attributes {:#x} instead of {:#x}", attr, b[0x44]));
    }
    let ty = format!("{}", i.geos_file_type);
    if ty != type_name(b[0x45]) {
        return Err(format!("type {:?} for {:#x}", ty, b[0x45]));
    }
    let st = format!("{}", i.structure);
    if st != structure_name(b[0x46]) {
        return Err(format!("structure {:?} for {:#x}", st, b[0x46]));
    }
    let w = |o: usize| b[o] as u16 | (b[o + 1] as u16) << 8;
    for (what, got, want) in [
        ("load", i.program_load_address, w(0x47)),
        ("end", i.program_end_address, w(0x49)),
        ("start", i.program_start_address, w(0x4b)),
    ]
    .iter()
    {
        if got != want {
            return Err(format!("{} address {:#x} instead of {:#x}", what, got, want));
        }
    }
    for (what, s, at, n) in [
        ("class", &i.class, 0x4d, 20usize),
        ("author", &i.author, 0x61, 20),
        ("application", &i.application, 0x75, 20),
        ("description", &i.description, 0xa0, 96),
    ]
    .iter()
    {
        let mut v = vec![0u8; *n];
        s.to_bytes(&mut v);
        if v[..] != b[*at..at + n] {
            return Err(format!("{}: {}", what, diff(&v, &b[*at..at + n])));
        }
        let t = s.to_escaped_string();
        if t != geos_text(&v) || t != format!("{}", s) {
            return Err(format!("{}: shown as {:?} instead of {:?}", what, t, geos_text(&v)));
        }
    }
    if i.reserved[..] != b[0x89..0xa0] {
        return Err(format!("reserved: {}", diff(&i.reserved, &b[0x89..0xa0])));
    }
    // Encoding: the same bytes, and nothing but the fields.
    let mut rng = Rng::new(b[5] as u64 | (b[70] as u64) << 8);
    for round in 0..2 {
        let mut out = vec![0u8; 256];
        rng.fill(&mut out);
        let mut want = b.to_vec();
        want[..5].copy_from_slice(&out[..5]);
        if round == 1 {
            out.copy_from_slice(b);
            want.copy_from_slice(b);
        }
        i.to_bytes(&mut out);
        if out != want {
            return Err(format!("encoding the info block again: {}", diff(&out, &want)));
        }
    }
    Ok(())
}

fn check_file(s: &Sut, m: &FModel, obs: &mut Obs) -> Res {
    let d = s.d();
    let entries = d.directory().map_err(|e| show_err(&e))?;
    let same: Vec<_> = entries.iter().filter(|e| plain_entry(e).name == m.name).collect();
    let e = match same.as_slice() {
        [e] => *e,
        v => return Err(format!("listed {} times", v.len())),
    };
    let p = plain_entry(e);
    let vlir = matches!(m.body, Body::Vlir { .. });
    if p.scheme != (if vlir { raw::Scheme::Vlir } else { raw::Scheme::GeosSeq }) {
        return Err(format!("listed as {:?}", p.scheme));
    }
    if p.extra[..] != m.entry[0x15..0x1e] {
        return Err(format!("metadata: {}", diff(&p.extra, &m.entry[0x15..0x1e])));
    }
    let x = match e.extra {
        Extra::GEOS(ref x) => x,
        _ => return Err("no GEOS metadata".to_string()),
    };
    let b = &m.entry;
    let shown = format!("{:?}", e.extra);
    let want = format!(
        "GEOS({}, {}, {:04}-{:02}-{:02}-{:02}:{:02})",
        structure_name(b[0x17]), type_name(b[0x18]),
        1900 + b[0x19] as u32, b[0x1a], b[0x1b], b[0x1c], b[0x1d]
    );
    if shown != want {
        return Err(format!("metadata shown as {:?} instead of {:?}", shown, want));
    }
    if (x.year, x.month, x.day, x.hour, x.minute) != (b[0x19], b[0x1a], b[0x1b], b[0x1c], b[0x1d]) {
        return Err("date".to_string());
    }
    let f = d.open_file(&pet(&m.name)).map_err(|e| format!("opening: {}", show_err(&e)))?;
    match f {
        File::GEOSSequential(_) if !vlir => {}
        File::GEOSVLIR(_) if vlir => {}
        _ => return Err("opened as another kind of file".to_string()),
    }
    let n = f.record_count().map_err(|e| show_err(&e))?;
    if n != m.records.len() {
        return Err(format!("{} records instead of {}", n, m.records.len()));
    }
    for i in (0..n).rev().chain(0..n) {
        let r = f.record(i).map_err(|e| format!("record {}: {}", i, show_err(&e)))?;
        if r != m.records[i] {
            return Err(format!("record {}: {}", i, diff(&r, &m.records[i])));
        }
    }
    for i in [n, n + 1, 127, 128, 255, 256, 65536, usize::MAX].iter().filter(|i| **i >= n) {
        match f.record(*i) {
            Ok(_) => return Err(format!("record {} of {} was delivered", i, n)),
            Err(ref e) if derr(e) == Some(DiskError::InvalidRecordIndex) => {}
            Err(e) => return Err(format!("record {} of {}: {}", i, n, show_err(&e))),
        }
    }
    match (f.reader(), vlir) {
        (Ok(mut r), false) => {
            let mut v = vec![];
            crate::util::drain(&mut *r, 1 << 20, &mut v).map_err(|e| format!("reading: {}", show_err(&e)))?;
            if v != m.records[0] {
                return Err(format!("reading: {}", diff(&v, &m.records[0])));
            }
        }
        (Err(ref e), true) if derr(e) == Some(DiskError::NonLinearFile) => {}
        (Err(e), _) => return Err(format!("reader: {}", show_err(&e))),
        (Ok(_), true) => return Err("linear reading is offered for a VLIR file".to_string()),
    }
    match f.writer() {
        Ok(_) => return Err("writing is offered for a GEOS file".to_string()),
        Err(e) => match derr(&e) {
            Some(DiskError::NonLinearFile) | Some(DiskError::ReadOnly) => {}
            _ => return Err(format!("writer: {}", show_err(&e))),
        },
    }
    let info = f.geos_info().map_err(|e| format!("info block: {}", show_err(&e)))?;
    match (&info, &m.info) {
        (None, None) => obs.label("no-info"),
        (Some(i), Some(b)) => {
            check_info(i, b).map_err(|e| format!("info block: {}", e))?;
        }
        (Some(_), None) => return Err("an info block where there is none".to_string()),
        (None, Some(_)) => return Err("the info block is not delivered".to_string()),
    }
    let occ = occupied(&f).map_err(|e| format!("occupied blocks: {}", show_err(&e)))?;
    let set: BTreeSet<Loc> = occ.iter().copied().collect();
    if set != m.blocks || set.len() != occ.len() {
        return Err(format!(
            "occupied blocks: {:?} missing, {:?} too many, {} listed twice",
            m.blocks.difference(&set).collect::<Vec<_>>(),
            set.difference(&m.blocks).collect::<Vec<_>>(),
            occ.len() - set.len()
        ));
    }
    obs.label(if vlir { "vlir" } else { "sequential" });
    obs.label_if(m.record_chains.iter().any(|c| c.is_empty()), "unavailable-records");
    obs.label_if(n > 100, "many-records");
    obs.label_if(m.border, "border");
    obs.nontrivial();
    Ok(())
}

fn geos(m: &FModel) -> bool {
    matches!(m.body, Body::GeosSeq { .. } | Body::Vlir { .. })
}

fn files(c: &Case, obs: &mut Obs) -> Res {
    let b = build(&c.image);
    let s = Sut::new(b.kind, &b.bytes, c.memory)?;
    for m in b.files.iter().filter(|m| geos(m)) {
        check_file(&s, m, obs).map_err(|e| format!("{:?}: {}", m.name, e))?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Info {
    seed: u64,
    /// Positions and values laid over a noise block.
    patch: Vec<(u8, u8)>,
    text: bool,
}

pub fn info_case() -> BoxedStrategy<Info> {
    (any::<u64>(), prop::collection::vec((any::<u8>(), any::<u8>()), 0..6), any::<bool>())
        .prop_map(|(seed, patch, text)| Info { seed, patch, text })
        .boxed()
}

pub fn info_bytes(c: &Info) -> Vec<u8> {
    let mut rng = Rng::new(c.seed);
    let mut b = if c.text {
        let attr = rng.byte();
        let (t, s) = (rng.below(16) as u8, rng.below(3) as u8);
        crate::foreign::info_block(&mut rng, attr, t, s)
    } else {
        let mut b = vec![0u8; 256];
        rng.fill(&mut b);
        b
    };
    for (o, v) in &c.patch {
        b[*o as usize] = *v;
    }
    b
}

fn info(c: &Info, obs: &mut Obs) -> Res {
    let b = info_bytes(c);
    let i = GEOSInfo::from_bytes(&b);
    obs.nontrivial();
    check_info(&i, &b)
}

fn types(i: &usize, obs: &mut Obs) -> Res {
    let b = *i as u8;
    obs.nontrivial();
    let t = GEOSFileType::from_byte(b);
    if t.to_byte() != b || format!("{}", t) != type_name(b) {
        return Err(format!("type {:#x}: {:?}, stored as {:#x}", b, format!("{}", t), t.to_byte()));
    }
    let t = GEOSFileStructure::from_byte(b);
    if t.to_byte() != b || format!("{}", t) != structure_name(b) {
        return Err(format!("structure {:#x}: {:?}, stored as {:#x}", b, format!("{}", t), t.to_byte()));
    }
    Ok(())
}

pub fn c14(ctx: &mut Ctx) {
    ctx.exhaustive("types", 256, "all type and structure codes", &types);
    ctx.sub(
        "files",
        90000,
        "GEOS sequential and VLIR files of up to 127 records scattered over disks with other files; non-trivial: at least one GEOS file",
        &case_strategy,
        &files,
    );
    ctx.sub("info", 300000, "info blocks of noise and of text; every case is non-trivial", &info_case, &info);
}

/// What a Convert stream says.
struct Cvt {
    records: Vec<Option<Vec<u8>>>,
}

fn decode(m: &FModel, s: &[u8]) -> Result<Cvt, String> {
    let vlir = matches!(m.body, Body::Vlir { .. });
    if s.len() < 508 {
        return Err(format!("a stream of {} bytes", s.len()));
    }
    if s[..30] != m.entry[2..32] {
        return Err(format!("directory entry: {}", diff(&s[..30], &m.entry[2..32])));
    }
    let sig: &[u8] = if vlir { b"PRG formatted GEOS file V1.0" } else { b"SEQ formatted GEOS file V1.0" };
    if s[30..30 + sig.len()] != *sig {
        return Err(format!("signature {:?}", String::from_utf8_lossy(&s[30..30 + sig.len()])));
    }
    let info = m.info.as_ref().unwrap();
    if s[254..508] != info[2..] {
        return Err(format!("info block: {}", diff(&s[254..508], &info[2..])));
    }
    let rest = &s[508..];
    if !vlir {
        return Ok(Cvt { records: vec![Some(rest.to_vec())] });
    }
    if rest.len() < 254 {
        return Err("the index block is missing".to_string());
    }
    let (index, mut rest) = rest.split_at(254);
    let mut records = vec![];
    let pairs: Vec<(u8, u8)> = index.chunks(2).map(|c| (c[0], c[1])).collect();
    let n = pairs.iter().position(|p| *p == (0, 0)).unwrap_or(127);
    if pairs[n..].iter().any(|p| *p != (0, 0)) {
        return Err("data after the end of the index".to_string());
    }
    let last = pairs[..n].iter().rposition(|p| p.0 != 0);
    for (i, (count, used)) in pairs[..n].iter().enumerate() {
        if *count == 0 {
            if *used != 0xff {
                return Err(format!("index entry {}: (0, {:#x})", i, used));
            }
            records.push(None);
            continue;
        }
        if *used < 1 {
            return Err(format!("index entry {}: ({}, {})", i, count, used));
        }
        let len = (*count as usize - 1) * 254 + *used as usize - 1;
        let whole = *count as usize * 254;
        if rest.len() < len || Some(i) != last && rest.len() < whole {
            return Err(format!(
                "record {} announces {} blocks, but only {} bytes follow", i, count, rest.len()
            ));
        }
        records.push(Some(rest[..len].to_vec()));
        rest = &rest[whole.min(rest.len())..];
    }
    if !rest.is_empty() {
        return Err(format!("{} bytes after the last record", rest.len()));
    }
    Ok(Cvt { records })
}

fn convert(c: &Case, obs: &mut Obs) -> Res {
    let b = build(&c.image);
    let s = Sut::new(b.kind, &b.bytes, c.memory)?;
    let mut rng = Rng::new(c.seed);
    for m in b.files.iter().filter(|m| geos(m)) {
        let at = |e: String| format!("{:?}: {}", m.name, e);
        let f = s.d().open_file(&pet(&m.name)).map_err(|e| at(show_err(&e)))?;
        let g = match f {
            File::GEOSSequential(ref g) | File::GEOSVLIR(ref g) => g,
            _ => return Err(at("not opened as a GEOS file".to_string())),
        };
        let mut whole = vec![];
        let r = g.reader().and_then(|mut r| crate::util::drain(&mut r, 256 << 20, &mut whole));
        if m.info.is_none() {
            match r {
                Err(ref e) if derr(e) == Some(DiskError::GEOSInfoNotFound) => {
                    obs.label("no-info");
                    continue;
                }
                Err(e) => return Err(at(format!("without an info block: {}", show_err(&e)))),
                Ok(_) => return Err(at("a stream without an info block".to_string())),
            }
        }
        if m.record_chains.iter().any(|c| c.len() > 255) {
            match r {
                Err(ref e) if derr(e) == Some(DiskError::RecordTooLarge) => {
                    obs.label("too-large");
                    continue;
                }
                Err(e) => return Err(at(format!("a record of over 255 blocks: {}", show_err(&e)))),
                Ok(_) => return Err(at("a record of over 255 blocks was converted".to_string())),
            }
        }
        r.map_err(|e| at(format!("converting: {}", show_err(&e))))?;
        let d = decode(m, &whole).map_err(at)?;
        let mut want: Vec<Option<Vec<u8>>> = m.records.iter().cloned().map(Some).collect();
        for (i, c) in m.record_chains.iter().enumerate() {
            if c.is_empty() {
                want[i] = None;
            }
        }
        if d.records.len() != want.len() {
            return Err(at(format!("{} records instead of {}", d.records.len(), want.len())));
        }
        for (i, (g, w)) in d.records.iter().zip(want.iter()).enumerate() {
            if g != w {
                return Err(at(match (g, w) {
                    (Some(g), Some(w)) => format!("record {}: {}", i, diff(g, w)),
                    _ => format!("record {}: availability", i),
                }));
            }
        }
        // Other buffer sizes.
        for mode in 0..3 {
            let mut r = g.reader().map_err(|e| at(show_err(&e)))?;
            let mut v = vec![];
            let mut zero = 0;
            loop {
                let n = match mode {
                    0 => 1 + rng.below(600),
                    1 => [1usize, 2, 253, 254, 255, 256, 508, 762][rng.below(8)],
                    _ => 1 + rng.below(3),
                };
                if rng.below(20) == 0 && r.read(&mut []).map_err(|e| at(show_err(&e)))? != 0 {
                    return Err(at("bytes read into an empty buffer".to_string()));
                }
                let mut buf = vec![0u8; n];
                let got = r.read(&mut buf).map_err(|e| at(format!("reading on: {}", show_err(&e))))?;
                if got > n {
                    return Err(at(format!("{} bytes read into a buffer of {}", got, n)));
                }
                v.extend_from_slice(&buf[..got]);
                if got == 0 {
                    zero += 1;
                    if zero == 3 {
                        break;
                    }
                } else if zero > 0 {
                    return Err(at("the stream went on after its end".to_string()));
                }
                if v.len() > whole.len() {
                    return Err(at("the stream is longer when read in parts".to_string()));
                }
            }
            if v != whole {
                return Err(at(format!("read in parts: {}", diff(&v, &whole))));
            }
        }
        obs.label(if matches!(m.body, Body::Vlir { .. }) { "vlir" } else { "sequential" });
        obs.label_if(m.records.iter().any(|r| r.len() % 254 == 0 && !r.is_empty()), "whole-blocks");
        obs.label_if(m.record_chains.iter().any(|c| c.len() > 250), "large");
        obs.nontrivial();
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Broken {
    image: Foreign,
    memory: bool,
    seed: u64,
    how: u8,
    place: usize,
    sizes: Vec<usize>,
}

fn broken_strategy() -> BoxedStrategy<Broken> {
    let size = prop_oneof![
        2 => 1usize..700,
        2 => prop::sample::select(vec![1usize, 2, 253, 254, 255, 507, 508, 509, 762, 4096]),
    ];
    (image_strategy(), any::<bool>(), any::<u64>(), 0u8..6, any::<usize>(), prop::collection::vec(size, 1..=6))
        .prop_map(|(image, memory, seed, how, place, sizes)| Broken { image, memory, seed, how, place, sizes })
        .boxed()
}

/// Streams of files with a broken link: the same bytes and the error, whatever the buffers.
fn broken(c: &Broken, obs: &mut Obs) -> Res {
    let b = build(&c.image);
    let kind = b.kind;
    let mut rng = Rng::new(c.seed);
    for m in b.files.iter().filter(|m| geos(m) && m.info.is_some()) {
        if m.record_chains.iter().any(|c| c.len() > 255) {
            continue;
        }
        let at = |e: String| format!("{:?}: {}", m.name, e);
        let stream = |img: &[u8], sizes: &[usize]| -> Result<(Vec<u8>, Option<std::io::Error>), String> {
            let s = Sut::new(kind, img, c.memory)?;
            let f = s.d().open_file(&pet(&m.name)).map_err(|e| at(show_err(&e)))?;
            let g = match f {
                File::GEOSSequential(ref g) | File::GEOSVLIR(ref g) => g,
                _ => return Err(at("not opened as a GEOS file".to_string())),
            };
            let mut r = g.reader().map_err(|e| at(show_err(&e)))?;
            let mut v = vec![];
            let mut k = 0;
            let e = loop {
                let mut buf = vec![0u8; sizes[k % sizes.len()]];
                k += 1;
                match r.read(&mut buf) {
                    Ok(0) => return Ok((v, None)),
                    Ok(n) if n > buf.len() => return Err(at("more bytes than asked for".to_string())),
                    Ok(n) => v.extend_from_slice(&buf[..n]),
                    Err(e) => break e,
                }
                if v.len() > 2_000_000 {
                    return Err(at("the stream does not end".to_string()));
                }
            };
            for _ in 0..3 {
                if let Ok(n) = r.read(&mut [0; 300]) {
                    if n > 0 {
                        return Err(at("the stream goes on after an error".to_string()));
                    }
                }
            }
            Ok((v, Some(e)))
        };
        let (whole, e) = stream(&b.bytes, &[1000])?;
        if let Some(e) = e {
            return Err(at(format!("intact: {}", show_err(&e))));
        }
        // Break a link.
        let mut img = b.bytes.clone();
        let vlir = matches!(m.body, Body::Vlir { .. });
        let chains: Vec<&Vec<crate::geom::Loc>> = if vlir {
            m.record_chains.iter().filter(|c| !c.is_empty()).collect()
        } else {
            vec![&m.chain]
        };
        let (want, what) = if c.how == 0 || chains.is_empty() {
            let (l, o) = m.at;
            super::c23::put(kind, &mut img, l, o + 0x15, &[99, 0]);
            (DiskError::InvalidLocation, "info")
        } else {
            let ch = chains[c.place % chains.len()];
            let i = rng.below(ch.len());
            let l = ch[i];
            match c.how {
                1 => {
                    super::c23::put(kind, &mut img, l, 0, &[0, 0]);
                    (DiskError::InvalidChainLink, "bad-link")
                }
                2 | 3 => {
                    let to = ch[rng.below(i + 1)];
                    super::c23::put(kind, &mut img, l, 0, &[to.0, to.1]);
                    (DiskError::ChainLoop, "loop")
                }
                _ => {
                    super::c23::put(kind, &mut img, l, 0, &[99, 0]);
                    (DiskError::InvalidLocation, "off-disk")
                }
            }
        };
        obs.label(what);
        let mut first: Option<Vec<u8>> = None;
        for sizes in [&c.sizes[..], &[1][..], &[5_000_000][..], &[254][..]] {
            let (v, e) = stream(&img, sizes)?;
            match e {
                None => return Err(at(format!("{}: the stream ends without an error", what))),
                Some(ref e) if derr(e) == Some(want.clone()) => (),
                Some(e) => return Err(at(format!("{}: {}", what, show_err(&e)))),
            }
            if what != "info" && !whole.starts_with(&v) {
                return Err(at(format!("{}: other bytes before the error: {}", what, diff(&v, &whole))));
            }
            match first {
                None => first = Some(v),
                Some(ref f) if *f == v => (),
                Some(ref f) => {
                    return Err(at(format!(
                        "{}: {} bytes before the error with buffers of {:?}, {} with {:?}",
                        what, v.len(), sizes, f.len(), c.sizes
                    )))
                }
            }
        }
        obs.nontrivial();
    }
    Ok(())
}

pub fn c15(ctx: &mut Ctx) {
    ctx.sub(
        "convert",
        60000,
        "GEOS sequential and VLIR files as in C14, and records around 255 blocks, converted, decoded by an independent decoder and read again with other buffer sizes; non-trivial: a stream was decoded",
        &case_strategy,
        &convert,
    );
    ctx.sub(
        "broken",
        10000,
        "GEOS files with a bad info location or a broken link, read with several buffer sizes; non-trivial: a broken file was read",
        &broken_strategy,
        &broken,
    );
}
