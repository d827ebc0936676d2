//! C07 (availability map format) and C08 (block placement).

use std::collections::BTreeSet;

use cbm::disk::directory::FileType;
use cbm::disk::file::Scheme;
use cbm::disk::DiskError;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::geom::{kind_strategy, Kind, Loc};
use crate::loc;
use crate::raw::{set_bam, Raw};
use crate::refalloc::{Map, Pick};
use crate::runner::{Ctx, Obs, Res};
use crate::sut::{self, derr, pet, show_err, Sut};
use crate::util::{content, diff, Rng};

/// A set of free blocks.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MapSpec {
    /// 0: all free, 1: none free, 2: random with the given density, 3: whole tracks.
    mode: u8,
    density: u8,
    seed: u64,
    set: Vec<(u8, u8, bool)>,
}

pub fn map_strategy(kind: Kind) -> BoxedStrategy<MapSpec> {
    (
        0u8..4,
        prop_oneof![Just(1u8), Just(8), Just(128), Just(250), any::<u8>()],
        any::<u64>(),
        prop::collection::vec((1u8..=kind.dos_tracks(), 0u8..40, prop::bool::weighted(0.7)), 0..8),
    )
        .prop_map(|(mode, density, seed, set)| MapSpec { mode, density, seed, set })
        .boxed()
}

pub fn make_map(kind: Kind, m: &MapSpec) -> Map {
    let mut rng = Rng::new(m.seed);
    let mut bits = vec![];
    for t in 1..=kind.dos_tracks() {
        let n = kind.sectors(t);
        let full = (1u64 << n) - 1;
        bits.push(match m.mode % 4 {
            0 => full,
            1 => 0,
            2 => {
                let mut b = 0;
                for s in 0..n {
                    if rng.byte() < m.density {
                        b |= 1 << s;
                    }
                }
                b
            }
            _ => match rng.below(3) {
                0 => full,
                1 => 0,
                _ => rng.next() & full & rng.next(),
            },
        });
    }
    for (t, s, v) in &m.set {
        if *t >= 1 && *t <= kind.dos_tracks() && *s < kind.sectors(*t) {
            if *v {
                bits[*t as usize - 1] |= 1 << s;
            } else {
                bits[*t as usize - 1] &= !(1 << s);
            }
        }
    }
    Map { kind, bits }
}

/// An image with this map and otherwise arbitrary contents (but a usable header).
fn image_with(kind: Kind, map: &Map, geos: bool, noise: Option<u64>) -> Vec<u8> {
    let errors = vec![1u8; kind.size() - kind.data_size()];
    let mut img = super::c05::blank_image(kind, b"MAP", *b"01", &errors);
    if let Some(seed) = noise {
        let blank = img.clone();
        Rng::new(seed).fill(&mut img);
        // Keep the directory and the mark of double-sided disks.
        let d = kind.offset(kind.first_dir());
        img[d..d + 256].copy_from_slice(&blank[d..d + 256]);
        let h = kind.offset(kind.header());
        img[h] = blank[h];
        img[h + 1] = blank[h + 1];
        if let Some(x) = kind.header_layout().double_sided {
            img[h + x] = 0x80;
        }
        img[h + 0xad] = 0;
    }
    if geos {
        let h = kind.offset(kind.header());
        img[h + 0xab] = 0;
        img[h + 0xac] = 0xff;
        img[h + 0xad..h + 0xad + 16].copy_from_slice(b"GEOS format V1.0");
    }
    for t in 1..=kind.dos_tracks() {
        let b = map.bits[t as usize - 1];
        set_bam(kind, &mut img, t, b.count_ones() as u8, b);
    }
    img
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum MarkOp {
    Allocate(u8, u8),
    Free(u8, u8),
    /// Through the entry of the track.
    Entry(u8, u8, bool),
    Flush,
    Reopen,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Marks {
    kind: Kind,
    memory: bool,
    map: MapSpec,
    noise: Option<u64>,
    ops: Vec<MarkOp>,
}

fn marks_strategy() -> BoxedStrategy<Marks> {
    kind_strategy()
        .prop_flat_map(|kind| {
            let t = prop_oneof![8 => 1u8..=kind.dos_tracks(), 1 => prop_oneof![Just(0u8), Just(kind.dos_tracks() + 1), any::<u8>()],
                2 => prop_oneof![Just(1u8), Just(35), Just(36), Just(18), Just(40), Just(41), Just(kind.dos_tracks())]];
            let s = prop_oneof![8 => 0u8..22, 3 => 0u8..40, 1 => any::<u8>()];
            let op = prop_oneof![
                4 => (t.clone(), s.clone()).prop_map(|(t, s)| MarkOp::Allocate(t, s)),
                4 => (t.clone(), s.clone()).prop_map(|(t, s)| MarkOp::Free(t, s)),
                2 => (t, s, any::<bool>()).prop_map(|(t, s, f)| MarkOp::Entry(t, s, f)),
                2 => Just(MarkOp::Flush),
                1 => Just(MarkOp::Reopen),
            ];
            (Just(kind), any::<bool>(), map_strategy(kind), prop::option::of(any::<u64>()), prop::collection::vec(op, 1..40))
        })
        .prop_map(|(kind, memory, map, noise, ops)| Marks { kind, memory, map, noise, ops })
        .boxed()
}

fn compare_map(kind: Kind, s: &Sut, model: &[(u8, u64)], what: &str) -> Res {
    let got = sut::bam_entries(kind, s.d()).map_err(|e| format!("{}: {}", what, show_err(&e)))?;
    for t in 0..got.len().max(model.len()) {
        if got.get(t) != model.get(t) {
            return Err(format!(
                "{}: map of track {} is {:x?}, should be {:x?}",
                what,
                t + 1,
                got.get(t),
                model.get(t)
            ));
        }
    }
    let bam = s.d().bam().map_err(|e| show_err(&e))?;
    let bam = bam.borrow();
    let a = bam.allocated_sectors().map_err(|e| show_err(&e))?;
    let f = bam.free_sectors().map_err(|e| show_err(&e))?;
    let alloc: BTreeSet<Loc> = a.iter().map(|l| (l.0, l.1)).collect();
    let free: BTreeSet<Loc> = f.iter().map(|l| (l.0, l.1)).collect();
    if alloc.len() != a.len() || free.len() != f.len() {
        return Err(format!("{}: a block is listed twice", what));
    }
    for t in 1..=kind.dos_tracks() {
        let b = model[t as usize - 1].1;
        for x in 0..kind.sectors(t) {
            let want = b >> x & 1 == 1;
            if free.contains(&(t, x)) != want || alloc.contains(&(t, x)) == want {
                return Err(format!("{}: block {:?} free: {}", what, (t, x), want));
            }
        }
    }
    let total: usize = (1..=kind.dos_tracks()).map(|t| kind.sectors(t) as usize).sum();
    if alloc.len() + free.len() != total {
        return Err(format!("{}: {} allocated and {} free blocks", what, alloc.len(), free.len()));
    }
    let bf: usize = (1..=kind.dos_tracks())
        .filter(|t| *t != kind.dir_track())
        .map(|t| model[t as usize - 1].0 as usize)
        .sum();
    if bam.blocks_free() != bf {
        return Err(format!("{}: {} blocks free, should be {}", what, bam.blocks_free(), bf));
    }
    Ok(())
}

fn store(kind: Kind, img: &mut [u8], model: &[(u8, u64)]) {
    for t in 1..=kind.dos_tracks() {
        let (c, b) = model[t as usize - 1];
        set_bam(kind, img, t, c, b);
    }
}

fn marks(c: &Marks, obs: &mut Obs) -> Res {
    let kind = c.kind;
    let map = make_map(kind, &c.map);
    let mut mirror = image_with(kind, &map, false, c.noise);
    let mut model: Vec<(u8, u64)> = map.bits.iter().map(|b| (b.count_ones() as u8, *b)).collect();
    let mut s = Sut::new(kind, &mirror, c.memory)?;
    compare_map(kind, &s, &model, "as read")?;
    for (i, op) in c.ops.iter().enumerate() {
        let at = |what: &str| format!("step {} {:?}: {}", i, op, what);
        match *op {
            MarkOp::Allocate(t, x) | MarkOp::Free(t, x) => {
                let free = matches!(op, MarkOp::Free(..));
                let bam = s.d().bam().map_err(|e| show_err(&e))?;
                let l = loc!(s.d(), (t, x));
                let r = if free { bam.borrow_mut().free(l) } else { bam.borrow_mut().allocate(l) };
                let valid = t >= 1 && t <= kind.dos_tracks() && x < kind.sectors(t);
                match r {
                    Ok(()) if valid => {
                        let m = &mut model[t as usize - 1];
                        if free {
                            m.1 |= 1 << x;
                        } else {
                            m.1 &= !(1 << x);
                        }
                        m.0 = m.1.count_ones() as u8;
                        obs.nontrivial();
                    }
                    Err(ref e) if !valid && derr(e) == Some(DiskError::InvalidLocation) => {
                        obs.label("no-such-block");
                    }
                    r => return Err(at(&format!("{:?}", r))),
                }
            }
            MarkOp::Entry(t, x, free) => {
                if t < 1 || t > kind.dos_tracks() || x >= kind.sectors(t) {
                    continue;
                }
                let bam = s.d().bam().map_err(|e| show_err(&e))?;
                let mut bam = bam.borrow_mut();
                let e = bam.entry_mut(t).map_err(|e| show_err(&e))?;
                if free {
                    e.free(x);
                } else {
                    e.allocate(x);
                }
                let m = &mut model[t as usize - 1];
                if free {
                    m.1 |= 1 << x;
                } else {
                    m.1 &= !(1 << x);
                }
                m.0 = m.1.count_ones() as u8;
            }
            MarkOp::Flush => {
                let bam = s.d().bam().map_err(|e| show_err(&e))?;
                bam.borrow_mut().flush().map_err(|e| at(&show_err(&e)))?;
                store(kind, &mut mirror, &model);
                obs.label("stored");
            }
            MarkOp::Reopen => {
                s.reopen(true)?;
                let raw = Raw::new(kind, &mirror);
                model = (1..=kind.dos_tracks()).map(|t| (raw.bam_count(t), raw.bam_bits(t))).collect();
                compare_map(kind, &s, &model, &at("after re-opening"))?;
            }
        }
        let img = s.image();
        if img != mirror {
            return Err(at(&format!("image {}", diff(&img, &mirror))));
        }
    }
    compare_map(kind, &s, &model, "at the end")
}

/// Any bytes where the map lies: read as they are, stored unchanged.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Any {
    kind: Kind,
    memory: bool,
    seed: u64,
    tracks: Vec<(u8, u8, u64)>,
}

fn any_map(c: &Any, obs: &mut Obs) -> Res {
    let kind = c.kind;
    let map = make_map(kind, &MapSpec { mode: 2, density: 100, seed: c.seed, set: vec![] });
    let mut img = image_with(kind, &map, false, Some(c.seed));
    for (t, n, bits) in &c.tracks {
        if *t >= 1 && *t <= kind.dos_tracks() {
            set_bam(kind, &mut img, *t, *n, *bits);
        }
    }
    let raw = Raw::new(kind, &img);
    let model: Vec<(u8, u64)> =
        (1..=kind.dos_tracks()).map(|t| (raw.bam_count(t), raw.bam_bits(t))).collect();
    let odd = (1..=kind.dos_tracks()).any(|t| {
        let (n, b) = model[t as usize - 1];
        n as u32 != b.count_ones() || b >> kind.sectors(t) != 0
    });
    obs.label_if(odd, "count-or-spare-bits-odd");
    if !c.tracks.is_empty() {
        obs.nontrivial();
    }
    let s = Sut::new(kind, &img, c.memory)?;
    compare_map(kind, &s, &model, "as read")?;
    s.d()
        .bam()
        .and_then(|b| b.borrow_mut().flush())
        .map_err(|e| format!("flush: {}", show_err(&e)))?;
    let after = s.image();
    if after != img {
        return Err(format!("storing the map as read: {}", diff(&after, &img)));
    }
    Ok(())
}

pub fn c07(ctx: &mut Ctx) {
    ctx.sub("marks", 22_000, "at least one block was marked", &marks_strategy, &marks);
    ctx.sub(
        "any-map",
        14_000,
        "at least one track was given an arbitrary count and bitmap",
        &|| {
            (kind_strategy(), any::<bool>(), any::<u64>(), prop::collection::vec((1u8..=80, any::<u8>(), any::<u64>()), 0..80))
                .prop_map(|(kind, memory, seed, tracks)| Any { kind, memory, seed, tracks })
                .boxed()
        },
        &any_map,
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Choice {
    kind: Kind,
    geos: bool,
    map: MapSpec,
}

fn choice_strategy() -> BoxedStrategy<Choice> {
    (kind_strategy(), any::<bool>())
        .prop_flat_map(|(kind, geos)| (Just(kind), Just(geos), map_strategy(kind)))
        .prop_map(|(kind, geos, map)| Choice { kind, geos, map })
        .boxed()
}

fn judge(kind: Kind, map: &Map, geos: bool, prev: Option<Loc>, got: Result<Loc, std::io::Error>) -> Res {
    let want = match prev {
        None => map.first(geos),
        Some(p) => map.next(geos, p),
    };
    match (got, want) {
        (Ok(l), Pick::At(w)) if l == w => Ok(()),
        (Err(ref e), Pick::Full) if derr(e) == Some(DiskError::DiskFull) => Ok(()),
        (got, want) => Err(format!(
            "{:?}{}: after {:?} the next block is {:?}, should be {:?}",
            kind,
            if geos { " (GEOS)" } else { "" },
            prev,
            got.map_err(|e| show_err(&e)),
            want
        )),
    }
}

fn choice(c: &Choice, obs: &mut Obs) -> Res {
    let kind = c.kind;
    let map = make_map(kind, &c.map);
    let img = image_with(kind, &map, c.geos, None);
    let s = Sut::memory(kind, &img);
    let bam = s.d().bam().map_err(|e| show_err(&e))?;
    let bam = bam.borrow();
    obs.label(if c.geos { "geos" } else { "cbm" });
    let data_free = kind.locations().into_iter().filter(|l| kind.is_data(*l) && map.bits[l.0 as usize - 1] >> l.1 & 1 == 1).count();
    obs.label(match data_free {
        0 => "full",
        1..=5 => "almost-full",
        _ => "space",
    });
    if data_free > 0 {
        obs.nontrivial();
    }
    let r = bam.next_free_block(None).map(|l| (l.0, l.1));
    if let Ok(l) = r {
        if !kind.is_data(l) || map.bits[l.0 as usize - 1] >> l.1 & 1 == 0 {
            return Err(format!("{:?} chosen for a new file is not a free data block", l));
        }
    }
    judge(kind, &map, c.geos, None, r)?;
    for p in kind.locations() {
        if !kind.covered(p) || Some(p.0) == kind.reserved_track() {
            continue;
        }
        let r = bam.next_free_block(Some(loc!(s.d(), p))).map(|l| (l.0, l.1));
        if let Ok(l) = r {
            let free = kind.covered(l) && map.bits[l.0 as usize - 1] >> l.1 & 1 == 1;
            let place = if p.0 == kind.dir_track() { l.0 == p.0 } else { kind.is_data(l) };
            if !free || !place {
                return Err(format!("{:?} chosen after {:?} is not a usable free block", l, p));
            }
        }
        judge(kind, &map, c.geos, Some(p), r)?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Layout {
    kind: Kind,
    geos: bool,
    memory: bool,
    map: MapSpec,
    /// Bytes of each file; negative chunk: flush after each.
    files: Vec<(usize, usize)>,
    /// Directory blocks' worth of empty files first.
    empties: u8,
}

fn layout_strategy() -> BoxedStrategy<Layout> {
    (kind_strategy(), any::<bool>(), any::<bool>())
        .prop_flat_map(|(kind, geos, memory)| {
            (
                Just((kind, geos, memory)),
                map_strategy(kind),
                prop::collection::vec(
                    (prop_oneof![3 => 0usize..6000, 2 => 0usize..40_000, 1 => 0usize..300_000], 1usize..1200),
                    0..4,
                ),
                prop_oneof![3 => 0u8..4, 1 => 0u8..40],
            )
        })
        .prop_map(|((kind, geos, memory), map, files, empties)| Layout { kind, geos, memory, map, files, empties })
        .boxed()
}

/// Take a block from the reference map.
fn take(map: &mut Map, geos: bool, prev: Option<Loc>) -> Option<Loc> {
    let p = match prev {
        None => map.first(geos),
        Some(p) => map.next(geos, p),
    };
    match p {
        Pick::At(l) => {
            map.bits[l.0 as usize - 1] &= !(1 << l.1);
            Some(l)
        }
        Pick::Full => None,
    }
}

fn layout(c: &Layout, obs: &mut Obs) -> Res {
    let kind = c.kind;
    let mut map = make_map(kind, &c.map);
    // Blocks in use on any disk.
    for l in kind.system() {
        map.bits[l.0 as usize - 1] &= !(1 << l.1);
    }
    let mut img = image_with(kind, &map, c.geos, None);
    if c.geos {
        // A border block: the first free one.
        let free = kind.locations().into_iter().find(|l| kind.is_data(*l) && map.bits[l.0 as usize - 1] >> l.1 & 1 == 1);
        match free {
            Some(l) => {
                map.bits[l.0 as usize - 1] &= !(1 << l.1);
                let h = kind.offset(kind.header());
                img[h + 0xab] = l.0;
                img[h + 0xac] = l.1;
                img[kind.offset(l)] = 0;
                img[kind.offset(l) + 1] = 0xff;
                let b = map.bits[l.0 as usize - 1];
                set_bam(kind, &mut img, l.0, b.count_ones() as u8, b);
            }
            None => return Ok(()),
        }
    }
    let mut s = Sut::new(kind, &img, c.memory)?;
    let mut dir = vec![kind.first_dir()];
    let mut slots = 0usize;
    let mut chains: Vec<(Vec<u8>, Vec<Loc>, Vec<u8>)> = vec![];
    let files: Vec<(usize, usize)> = (0..c.empties).map(|_| (0usize, 1usize)).chain(c.files.iter().copied()).collect();
    for (i, (len, chunk)) in files.iter().enumerate() {
        let name = format!("F{}", i).into_bytes();
        let r = s.m().create_file(&pet(&name), if i % 2 == 0 { FileType::PRG } else { FileType::SEQ }, Scheme::Linear);
        // What the reference does: a directory slot, then a block.
        if slots == dir.len() * 8 {
            match take(&mut map, c.geos, Some(*dir.last().unwrap())) {
                Some(l) => {
                    dir.push(l);
                    obs.label("directory-grew");
                }
                None => {
                    obs.label("directory-full");
                    match r {
                        Ok(_) => return Err("a file was created without room in the directory".into()),
                        Err(ref e) if derr(e) == Some(DiskError::DiskFull) => return Ok(()),
                        Err(e) => return Err(format!("directory full reported as {}", show_err(&e))),
                    }
                }
            }
        }
        let first = match take(&mut map, c.geos, None) {
            Some(l) => l,
            None => {
                obs.label("disk-full");
                match r {
                    Ok(_) => return Err("a file was created without a free block".into()),
                    Err(ref e) if derr(e) == Some(DiskError::DiskFull) => return Ok(()),
                    Err(e) => return Err(format!("disk full reported as {}", show_err(&e))),
                }
            }
        };
        slots += 1;
        r.map_err(|e| format!("create file {}: {}", i, show_err(&e)))?;
        let mut chain = vec![first];
        let data = content(*len, i as u64 + 1);
        let r = sut::append(s.d(), &name, &data, *chunk);
        let mut fits = 254;
        while fits < *len {
            match take(&mut map, c.geos, chain.last().copied()) {
                Some(l) => chain.push(l),
                None => break,
            }
            fits += 254;
        }
        if chain.len() > 2 {
            obs.nontrivial();
        }
        let full = fits < *len;
        match r {
            Ok(()) if !full => {}
            Err(ref e) if full && derr(e) == Some(DiskError::DiskFull) => {
                obs.label("disk-full");
            }
            r => return Err(format!("writing {} bytes: {:?}, {} fit", len, r.map_err(|e| show_err(&e)), fits)),
        }
        chains.push((name, chain, data[..fits.min(*len)].to_vec()));
        if full {
            break;
        }
    }
    let img = s.image();
    let raw = Raw::new(kind, &img);
    let got = raw.dir_blocks().map_err(|e| format!("directory chain: {:?}", e))?;
    if got != dir {
        return Err(format!("directory blocks {:?}, should be {:?}", got, dir));
    }
    let entries = raw.entries().map_err(|e| format!("directory: {:?}", e))?;
    for (name, chain, data) in &chains {
        let e = entries.iter().find(|e| e.name() == *name).ok_or("a file is not in the directory")?;
        let got = raw.chain_locs(e.first()).map_err(|e| format!("chain: {:?}", e))?;
        if got != *chain {
            let i = got.iter().zip(chain.iter()).position(|(a, b)| a != b).unwrap_or_else(|| got.len().min(chain.len()));
            return Err(format!(
                "{:?}{}: block {} of a file lies at {:?}, should be {:?} (after {:?})",
                kind, if c.geos { " (GEOS)" } else { "" }, i, got.get(i), chain.get(i), if i > 0 { chain.get(i - 1) } else { None }
            ));
        }
        let d = raw.chain_data(e.first()).map_err(|e| format!("chain: {:?}", e))?;
        if d != *data {
            return Err(format!("contents: {}", diff(&d, data)));
        }
    }
    for t in 1..=kind.dos_tracks() {
        if raw.bam_bits(t) != map.bits[t as usize - 1] {
            return Err(format!("map of track {} is {:x}, should be {:x}", t, raw.bam_bits(t), map.bits[t as usize - 1]));
        }
    }
    Ok(())
}

pub fn c08(ctx: &mut Ctx) {
    ctx.sub(
        "choice",
        10_000,
        "the map has a free data block (every block of the disk is tried as the previous one)",
        &choice_strategy,
        &choice,
    );
    ctx.sub("layout", 9_000, "a file of three or more blocks was written", &layout_strategy, &layout);
}
