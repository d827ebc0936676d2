//! C11: damaged and hostile images.

use std::io::{Read, Write};

use cbm::disk::file::{File, FileOps, Scheme};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::c10::{damage, damage_strategy, Damage};
use crate::foreign::{build, foreign_strategy, Foreign};
use crate::geom::{kind_strategy, Kind, Loc};
use crate::loc;
use crate::raw::Raw;
use crate::runner::{guard, Ctx, Obs, Res};
use crate::sut::{self, file_type, pet, Sut};
use crate::util::{content, name_strategy, Rng};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Action {
    List,
    Find { name: Vec<u8> },
    Inspect { sel: usize },
    Dump,
    Validate,
    Map,
    Create { name: Vec<u8>, ftype: u8, len: usize },
    Append { sel: usize, len: usize, chunk: usize },
    Rename { sel: usize, to: Vec<u8> },
    Delete { sel: usize },
    Slot,
    Store { sel: usize },
    Allocate { t: u8, s: u8, free: bool },
    Next { prev: Option<(u8, u8)> },
    Sector { t: u8, s: u8, write: bool },
    Header { len: usize },
    Format { name: Vec<u8> },
    Reopen,
}

pub fn action_strategy() -> BoxedStrategy<Action> {
    let f = any::<usize>;
    prop_oneof![
        2 => Just(Action::List),
        1 => name_strategy().prop_map(|name| Action::Find { name }),
        6 => f().prop_map(|sel| Action::Inspect { sel }),
        1 => Just(Action::Dump),
        3 => Just(Action::Validate),
        1 => Just(Action::Map),
        3 => (name_strategy(), 0u8..16, 0usize..2000)
            .prop_map(|(name, ftype, len)| Action::Create { name, ftype, len }),
        4 => (f(), prop_oneof![0usize..3, 0usize..1200], 1usize..600)
            .prop_map(|(sel, len, chunk)| Action::Append { sel, len, chunk }),
        3 => (f(), name_strategy()).prop_map(|(sel, to)| Action::Rename { sel, to }),
        4 => f().prop_map(|sel| Action::Delete { sel }),
        2 => Just(Action::Slot),
        1 => f().prop_map(|sel| Action::Store { sel }),
        1 => (any::<u8>(), any::<u8>(), any::<bool>()).prop_map(|(t, s, free)| Action::Allocate { t, s, free }),
        2 => proptest::option::of((0u8..=82, 0u8..=41)).prop_map(|prev| Action::Next { prev }),
        1 => (any::<u8>(), any::<u8>(), any::<bool>()).prop_map(|(t, s, write)| Action::Sector { t, s, write }),
        1 => (0usize..20).prop_map(|len| Action::Header { len }),
        1 => prop::collection::vec(any::<u8>(), 0..20).prop_map(|name| Action::Format { name }),
        2 => Just(Action::Reopen),
    ]
    .boxed()
}

fn meter<T>(what: &str, budget: u64, f: impl FnOnce() -> T) -> Result<T, String> {
    cbm::verif::set_step_budget(Some(budget));
    let r = guard(f);
    cbm::verif::set_step_budget(None);
    r.map_err(|e| format!("{}: {}", what, e))
}

const FILE_STEPS: u64 = 6_000_000;
/// How much of a stream is read; larger than any disk can hold in one chain.
const STREAM_MAX: u64 = 3_000_000;

fn inspect(d: &sut::DynDisk, e: &cbm::disk::directory::DirectoryEntry, obs: &mut Obs) -> Res {
    let show = format!("{:?}", sut::plain_entry(e));
    let at = |w: &str| format!("{} of {}", w, show);
    meter(&at("printing the entry"), FILE_STEPS, || format!("{} {:#} {:?}", e, e, e))?;
    let f = match meter(&at("opening"), FILE_STEPS, || d.open_file_from_entry(e))? {
        Ok(f) => f,
        Err(_) => {
            obs.label("cannot-open");
            return Ok(());
        }
    };
    let mut ok = true;
    let n = meter(&at("counting the records"), FILE_STEPS, || f.record_count())?;
    let n = match n {
        Ok(n) => n,
        Err(_) => {
            ok = false;
            0
        }
    };
    let mut rng = Rng::new(n as u64);
    let mut which: Vec<usize> = (0..n.min(130)).collect();
    which.push(n.wrapping_sub(1));
    which.extend_from_slice(&[n, n + 1, 255, 256, 65535, usize::MAX]);
    for _ in 0..20 {
        which.push(rng.below(n.max(1)));
    }
    for i in which {
        ok &= meter(&at(&format!("record {}", i)), FILE_STEPS, || f.record(i))?.is_ok() || i >= n;
    }
    for v in 0..4 {
        let mut out = vec![];
        ok &= meter(&at("the details"), FILE_STEPS, || f.details(&mut out, v))?.is_ok();
    }
    ok &= meter(&at("the occupied blocks"), FILE_STEPS, || f.occupied_sectors())?.is_ok();
    if n < 3000 {
        let mut out = vec![];
        meter(&at("dumping"), FILE_STEPS * 4, || f.dump(&mut out))?
            .map_or((), |_| ());
    }
    let stream = |r: &mut dyn Read| -> Result<bool, String> {
        let mut v = vec![];
        let ok = r.take(STREAM_MAX).read_to_end(&mut v).is_ok();
        if v.len() as u64 >= STREAM_MAX {
            return Err("the stream does not end".to_string());
        }
        Ok(ok)
    };
    ok &= meter(&at("reading"), FILE_STEPS, || match f.reader() {
        Ok(mut r) => stream(&mut r),
        Err(_) => Ok(false),
    })?
    .map_err(|e| at(&e))?;
    match f {
        File::GEOSSequential(ref g) | File::GEOSVLIR(ref g) => {
            ok &= meter(&at("the Convert stream"), FILE_STEPS, || match g.reader() {
                Ok(mut r) => stream(&mut r),
                Err(_) => Ok(false),
            })?
            .map_err(|e| at(&e))?;
            meter(&at("the info block"), FILE_STEPS, || {
                if let Ok(Some(i)) = f.geos_info() {
                    let mut b = [0u8; 256];
                    i.to_bytes(&mut b);
                    format!("{}", i)
                } else {
                    String::new()
                }
            })?;
        }
        _ => {}
    }
    obs.label(if ok { "readable" } else { "partly-unreadable" });
    Ok(())
}

pub fn torture(s: &mut Sut, actions: &[Action], obs: &mut Obs) -> Res {
    let kind = s.kind;
    for a in actions {
        let entries = match meter("listing", FILE_STEPS, || s.d().directory())? {
            Ok(v) => v,
            Err(_) => {
                obs.label("directory-unreadable");
                // The iterator must also end by itself.
                meter("iterating the directory", FILE_STEPS, || s.d().iter().take(200_000).count())?;
                vec![]
            }
        };
        let all = FILE_STEPS / 2 * (entries.len() as u64 + 2);
        let pick = |sel: usize| entries.get(sel % entries.len().max(1)).cloned();
        let what = format!("{:?}", a);
        match *a {
            Action::List => {
                meter(&what, FILE_STEPS, || {
                    let _ = format!("{} {:?}", s.d(), s.d().name());
                    let _ = s.d().header().map(|h| format!("{:?}", h));
                    let _ = s.d().blocks_free();
                    for e in &entries {
                        let _ = format!("{} {:#}", e, e);
                    }
                })?;
            }
            Action::Find { ref name } => {
                meter(&what, FILE_STEPS, || s.d().find_directory_entry(&pet(name)).is_ok())?;
            }
            Action::Inspect { sel } => {
                if let Some(e) = pick(sel) {
                    inspect(s.d(), &e, obs)?;
                }
            }
            Action::Dump => {
                let mut out = vec![];
                meter(&what, FILE_STEPS, || s.m().dump(&mut out))?
                    .map_err(|e| format!("dump: {}", sut::show_err(&e)))?;
            }
            Action::Validate => {
                let r = meter(&what, all, || s.d().validate())?;
                obs.label(match r {
                    Ok(ref v) if v.is_empty() => "valid",
                    Ok(_) => "invalid",
                    Err(_) => "cannot-validate",
                });
                if let Ok(v) = r {
                    meter("printing the errors", FILE_STEPS, || {
                        for e in &v {
                            let _ = format!("{} {:?}", e, e);
                        }
                    })?;
                }
            }
            Action::Map => {
                meter(&what, FILE_STEPS, || {
                    if let Ok(b) = s.d().bam() {
                        let b = b.borrow();
                        let _ = format!("{:?}", b);
                        let _ = b.allocated_sectors();
                        let _ = b.free_sectors();
                        for t in 0..=255u8 {
                            let _ = b.entry(t);
                        }
                    }
                })?;
            }
            Action::Create { ref name, ftype, len } => {
                let ok = meter(&what, FILE_STEPS, || {
                    match s.m().create_file(&pet(name), file_type(ftype), Scheme::Linear) {
                        Ok(f) => match f.writer() {
                            Ok(mut w) => {
                                let _ = w.write_all(&content(len, 7));
                                let _ = w.flush();
                                true
                            }
                            Err(_) => false,
                        },
                        Err(_) => false,
                    }
                })?;
                obs.label_if(ok, "created");
            }
            Action::Append { sel, len, chunk } => {
                if let Some(e) = pick(sel) {
                    let ok = meter(&what, FILE_STEPS, || {
                        let f = s.d().open_file_from_entry(&e).ok()?;
                        let mut w = f.writer().ok()?;
                        for c in content(len, 9).chunks(chunk.max(1)) {
                            w.write_all(c).ok()?;
                        }
                        w.flush().ok()
                    })?
                    .is_some();
                    obs.label_if(ok, "appended");
                }
            }
            Action::Rename { sel, ref to } => {
                if let Some(e) = pick(sel) {
                    let ok = meter(&what, FILE_STEPS, || s.m().rename(&e.filename, &pet(to)).is_ok())?;
                    obs.label_if(ok, "renamed");
                }
            }
            Action::Delete { sel } => {
                if let Some(e) = pick(sel) {
                    let ok = meter(&what, FILE_STEPS, || {
                        s.d().open_file_from_entry(&e).and_then(|mut f| f.delete()).is_ok()
                    })?;
                    obs.label_if(ok, "deleted");
                }
            }
            Action::Slot => {
                meter(&what, FILE_STEPS, || {
                    if let Ok(mut e) = s.m().next_free_directory_entry() {
                        e.filename = pet(b"X");
                        e.first_sector = loc!(s.d(), kind.header());
                        let _ = s.m().write_directory_entry(&e);
                    }
                })?;
            }
            Action::Store { sel } => {
                if let Some(e) = pick(sel) {
                    meter(&what, FILE_STEPS, || s.m().write_directory_entry(&e).is_ok())?;
                }
            }
            Action::Allocate { t, s: sec, free } => {
                meter(&what, FILE_STEPS, || {
                    if let Ok(b) = s.d().bam() {
                        let mut b = b.borrow_mut();
                        let l = loc!(s.d(), (t, sec));
                        let _ = if free { b.free(l) } else { b.allocate(l) };
                        let _ = b.flush();
                    }
                })?;
            }
            Action::Next { prev } => {
                meter(&what, FILE_STEPS, || {
                    if let Ok(b) = s.d().bam() {
                        let p = prev.map(|p| loc!(s.d(), p));
                        let _ = b.borrow().next_free_block(p);
                    }
                })?;
            }
            Action::Sector { t, s: sec, write } => {
                meter(&what, FILE_STEPS, || {
                    let l = loc!(s.d(), (t, sec));
                    if let Ok(v) = s.d().read_sector(l) {
                        if write {
                            let _ = s.m().write_sector(l, &v);
                        }
                    }
                })?;
            }
            Action::Header { len } => {
                meter(&what, FILE_STEPS, || {
                    if let Ok(h) = s.m().header_mut() {
                        h.disk_name = pet(&content(len, 3));
                    }
                    let _ = s.m().flush_header();
                })?;
            }
            Action::Format { ref name } => {
                meter(&what, FILE_STEPS, || s.m().write_format(&pet(name), &sut::id([0x41, 0x42])).is_ok())?;
            }
            Action::Reopen => {
                let before = s.image();
                meter(&what, FILE_STEPS, || s.reopen(true))??;
                if s.image() != before {
                    return Err("re-opening the image changed it".to_string());
                }
            }
        }
        // The image keeps its size.
        if let Some(ref p) = s.path {
            let n = std::fs::metadata(p).map(|m| m.len()).unwrap_or(0);
            if n != kind.size() as u64 {
                return Err(format!("{}: the image file now has {} bytes", what, n));
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Where {
    Header,
    Map,
    Directory(usize),
    File(usize, usize),
    Any(usize),
    /// The block count of a file, near its limit.
    Size(usize),
}

/// A byte written over something.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Smash {
    at: Where,
    offset: u8,
    value: u8,
}

pub fn smash_strategy() -> BoxedStrategy<Smash> {
    let at = prop_oneof![
        2 => Just(Where::Header),
        1 => Just(Where::Map),
        6 => any::<usize>().prop_map(Where::Directory),
        5 => (any::<usize>(), any::<usize>()).prop_map(|(a, b)| Where::File(a, b)),
        1 => any::<usize>().prop_map(Where::Any),
    ];
    let offset = prop_oneof![
        4 => 0u8..6,
        3 => (0u8..8, 0u8..32).prop_map(|(a, b)| a * 32 + b),
        2 => any::<u8>(),
    ];
    let value = prop_oneof![
        2 => prop::sample::select(vec![0u8, 1, 2, 3, 0x41, 0x44, 0x80, 0x81, 0x82, 0x83, 0x84, 0xff, 0xfe, 17, 18, 35, 36, 40, 53, 70, 80]),
        2 => any::<u8>(),
        1 => 0u8..42,
    ];
    let plain = (at, offset, value).prop_map(|(at, offset, value)| Smash { at, offset, value });
    let size = (any::<usize>(), 0xfcu8..=0xff)
        .prop_map(|(f, value)| Smash { at: Where::Size(f), offset: 0, value });
    prop_oneof![16 => plain, 1 => size].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    image: Foreign,
    memory: bool,
    damage: Vec<Damage>,
    smash: Vec<Smash>,
    actions: Vec<Action>,
}

fn case_strategy() -> BoxedStrategy<Case> {
    (
        foreign_strategy(8, 6, true),
        any::<bool>(),
        prop::collection::vec(damage_strategy(), 0..=4),
        prop::collection::vec(smash_strategy(), 0..=5),
        prop::collection::vec(action_strategy(), 1..=10),
    )
        .prop_map(|(image, memory, damage, smash, actions)| Case { image, memory, damage, smash, actions })
        .boxed()
}

fn damaged(c: &Case, obs: &mut Obs) -> Res {
    let b = build(&c.image);
    let kind = b.kind;
    let mut img = b.bytes.clone();
    for d in &c.damage {
        damage(&b, &mut img, d);
    }
    let all = kind.locations();
    for s in &c.smash {
        let l: Loc = match s.at {
            Where::Size(f) if !b.files.is_empty() => {
                let (l, o) = b.files[f % b.files.len()].at;
                let at = kind.offset(l) + o + 0x1e;
                img[at] = s.value;
                img[at + 1] = 0xff;
                obs.label("extreme-size");
                continue;
            }
            Where::Size(_) => continue,
            Where::Header => kind.header(),
            Where::Map => kind.system()[1 % kind.system().len()],
            Where::Directory(n) => b.dir[n % b.dir.len()],
            Where::File(f, n) if !b.files.is_empty() => {
                let m = &b.files[f % b.files.len()];
                match m.blocks.iter().nth(n % m.blocks.len().max(1)) {
                    Some(l) => *l,
                    None => kind.first_dir(),
                }
            }
            Where::File(_, n) | Where::Any(n) => all[n % all.len()],
        };
        img[kind.offset(l) + s.offset as usize] = s.value;
    }
    if img != b.bytes {
        obs.nontrivial();
        if Raw::new(kind, &img).consistency().is_err() {
            obs.label("inconsistent");
        }
    }
    let mut s = Sut::new(kind, &img, c.memory)?;
    torture(&mut s, &c.actions, obs)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Noise {
    kind: Kind,
    mode: u8,
    /// Links point into this many blocks.
    pool: usize,
    header: bool,
    seed: u64,
    memory: bool,
    patch: Vec<(usize, u8, u8)>,
    actions: Vec<Action>,
}

fn noise_strategy() -> BoxedStrategy<Noise> {
    (
        kind_strategy(),
        0u8..7,
        prop_oneof![1usize..6, 1usize..60, 1usize..4000],
        prop_oneof![3 => Just(true), 1 => Just(false)],
        any::<u64>(),
        any::<bool>(),
        prop::collection::vec((any::<usize>(), any::<u8>(), any::<u8>()), 0..=4),
        prop::collection::vec(action_strategy(), 1..=6),
    )
        .prop_map(|(kind, mode, pool, header, seed, memory, patch, actions)| Noise {
            kind, mode, pool, header, seed, memory, patch, actions,
        })
        .boxed()
}

fn noise_image(c: &Noise) -> Vec<u8> {
    let kind = c.kind;
    let mut rng = Rng::new(c.seed);
    let mut img = vec![0u8; kind.size()];
    let locs = kind.locations();
    let mut pool: Vec<Loc> = locs.clone();
    rng.shuffle(&mut pool);
    pool.truncate(c.pool);
    let tree = |rng: &mut Rng| pool[rng.below(pool.len())];
    match c.mode {
        0 => {}
        1 => rng.fill(&mut img),
        2 => img.iter_mut().for_each(|b| *b = 0xff),
        _ => {
            // Noise with plausible links, and directory blocks with plausible entries.
            for l in &locs {
                let o = kind.offset(*l);
                if c.mode >= 4 {
                    rng.fill(&mut img[o..o + 256]);
                }
                let end = rng.below(if c.mode == 5 { 20 } else { 4 }) == 0;
                let to = if l.0 == kind.dir_track() && rng.below(3) > 0 {
                    (0, 0xff)
                } else if end {
                    (0, rng.byte())
                } else {
                    tree(&mut rng)
                };
                img[o] = to.0;
                img[o + 1] = to.1;
                if l.0 == kind.dir_track() || rng.below(12) == 0 {
                    for i in 0..8 {
                        let e = o + i * 32;
                        if rng.below(5) == 0 {
                            img[e + 2] = 0;
                            continue;
                        }
                        let attr = [0x80u8, 0x81, 0x82, 0x83, 0x84, 0x83, 0x84, 0x01, 0x45, 0xff][rng.below(10)];
                        img[e + 2] = attr;
                        let t = tree(&mut rng);
                        img[e + 3] = t.0;
                        img[e + 4] = t.1;
                        for k in 0..16 {
                            img[e + 5 + k] = if k < 3 { 0x41 + rng.below(6) as u8 } else { 0xa0 };
                        }
                        let t = if rng.below(4) == 0 { (0, 0) } else { tree(&mut rng) };
                        img[e + 0x15] = t.0;
                        img[e + 0x16] = t.1;
                        img[e + 0x17] = [0u8, 1, 1, 2, 254, 255, rng.byte()][rng.below(7)];
                        img[e + 0x18] = rng.below(16) as u8;
                        if rng.below(4) == 0 {
                            img[e + 0x1e] = 0xff;
                            img[e + 0x1f] = 0xff;
                        }
                    }
                }
                if rng.below(6) == 0 {
                    // Something like a side sector or a VLIR index.
                    let n = rng.below(128);
                    for k in 0..n {
                        let t = tree(&mut rng);
                        img[o + 2 * k] = t.0;
                        img[o + 2 * k + 1] = t.1;
                    }
                    if rng.below(2) == 0 {
                        img[o + 2] = rng.below(7) as u8;
                        img[o + 3] = img[o + 0x17];
                    }
                }
            }
        }
    }
    if c.header {
        let h = kind.offset(kind.header());
        let d = if c.mode == 6 { tree(&mut rng) } else { kind.first_dir() };
        img[h] = d.0;
        img[h + 1] = d.1;
        if kind.family() == crate::geom::Family::F1571 {
            img[h + 3] = 0x80;
        }
        if rng.below(2) == 0 {
            img[h + 0xad..h + 0xb8].copy_from_slice(b"GEOS format");
            let t = tree(&mut rng);
            img[h + 0xab] = t.0;
            img[h + 0xac] = t.1;
        }
    }
    for (i, o, v) in &c.patch {
        img[kind.offset(locs[i % locs.len()]) + *o as usize] = *v;
    }
    img
}

fn noise(c: &Noise, obs: &mut Obs) -> Res {
    let img = noise_image(c);
    obs.label(match c.mode {
        0 => "zeros",
        1 => "random",
        2 => "ones",
        3 => "links",
        4 => "links-and-noise",
        5 => "long-chains",
        _ => "directory-elsewhere",
    });
    if c.mode != 0 && c.mode != 2 {
        obs.nontrivial();
    }
    let mut s = Sut::new(c.kind, &img, c.memory)?;
    torture(&mut s, &c.actions, obs)
}

pub fn c11(ctx: &mut Ctx) {
    ctx.sub(
        "damaged",
        40000,
        "disks of all file kinds with damaged links, indexes, side sectors, entries and maps, worked on with up to ten arbitrary operations; non-trivial: the damage changed the image",
        &case_strategy,
        &damaged,
    );
    ctx.sub(
        "noise",
        24000,
        "images of noise, of plausible links and entries pointing anywhere, zeros and ones; non-trivial: not all bytes equal",
        &noise_strategy,
        &noise,
    );
}
