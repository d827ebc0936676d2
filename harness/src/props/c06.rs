//! C06: addressing, recognition of images, creation of images.

use std::path::PathBuf;

use cbm::disk::{self, Disk, DiskError, D64, D71, D81};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::geom::{kind_strategy, Family, Kind, ALL_KINDS};
use crate::loc;
use crate::runner::{Ctx, Obs, Res};
use crate::sut::{self, derr, fresh, show_err, DynDisk, Sut};
use crate::util::{diff, Rng};

fn check_read(kind: Kind, d: &DynDisk, mirror: &[u8], l: (u8, u8)) -> Res {
    let r = d.read_sector(loc!(d, l));
    if kind.valid(l) {
        let o = kind.offset(l);
        match r {
            Ok(b) if b[..] == mirror[o..o + 256] => Ok(()),
            Ok(b) => Err(format!("{:?} block {:?}: {}", kind, l, diff(&b, &mirror[o..o + 256]))),
            Err(e) => Err(format!("{:?} block {:?} cannot be read: {}", kind, l, show_err(&e))),
        }
    } else {
        match r {
            Ok(_) => Err(format!("{:?} has no block {:?}, but reading it succeeds", kind, l)),
            Err(ref e) if derr(e) == Some(DiskError::InvalidLocation) => Ok(()),
            Err(e) => Err(format!("{:?}: reading {:?} gives {}", kind, l, show_err(&e))),
        }
    }
}

/// All 65536 addresses of one image type: reading and writing.
fn addressing(i: &usize, obs: &mut Obs) -> Res {
    let kind = ALL_KINDS[i / 3];
    let backing = i % 3;
    let mut rng = Rng::new(*i as u64 + 99);
    let mut mirror = vec![0u8; kind.size()];
    rng.fill(&mut mirror);
    obs.nontrivial();
    let mut s = match backing {
        0 => Sut::memory(kind, &mirror),
        1 => Sut::file(kind, &mirror, true)?,
        _ => Sut::file(kind, &mirror, false)?,
    };
    cbm::verif::set_step_budget(None);
    for t in 0..=255u8 {
        for x in 0..=255u8 {
            check_read(kind, s.d(), &mirror, (t, x))?;
            let b = s.d().blocks_ref();
            if b.sector(loc!(s.d(), (t, x))).is_ok() != kind.valid((t, x)) {
                return Err(format!("{:?}: block device at {:?}", kind, (t, x)));
            }
        }
    }
    if backing == 2 {
        return Ok(());
    }
    let mut order: Vec<(u8, u8)> = (0..=255u8).flat_map(|t| (0..=255u8).map(move |x| (t, x))).collect();
    rng.shuffle(&mut order);
    let mut n = 0;
    for l in order {
        let mut block = vec![0u8; 256];
        rng.fill(&mut block);
        let at = loc!(s.d(), l);
        let r = s.m().write_sector(at, &block);
        if kind.valid(l) {
            r.map_err(|e| format!("{:?} block {:?} cannot be written: {}", kind, l, show_err(&e)))?;
            let o = kind.offset(l);
            mirror[o..o + 256].copy_from_slice(&block);
            check_read(kind, s.d(), &mirror, l)?;
            n += 1;
            if n % 64 == 0 && s.image() != mirror {
                return Err(format!("{:?}: around block {:?}: {}", kind, l, diff(&s.image(), &mirror)));
            }
        } else {
            match r {
                Ok(()) => return Err(format!("{:?} has no block {:?}, but writing it succeeds", kind, l)),
                Err(ref e) if derr(e) == Some(DiskError::InvalidLocation) => {}
                Err(e) => return Err(format!("{:?}: writing {:?} gives {}", kind, l, show_err(&e))),
            }
        }
    }
    if n != kind.total_sectors() {
        return Err("wrong number of blocks".into());
    }
    let img = s.image();
    if img != mirror {
        return Err(format!("{:?}: after writing every block: {}", kind, diff(&img, &mirror)));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Write(u8, u8, u64),
    /// A buffer of the wrong length.
    WriteLen(u8, u8, usize),
    Read(u8, u8),
    Errors(u64),
    Reopen,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Io {
    kind: Kind,
    memory: bool,
    seed: u64,
    ops: Vec<Op>,
}

fn io_strategy() -> BoxedStrategy<Io> {
    kind_strategy()
        .prop_flat_map(|kind| {
            let track = prop_oneof![
                6 => 1u8..=kind.tracks(),
                1 => prop_oneof![Just(1u8), Just(17), Just(18), Just(35), Just(36), Just(kind.tracks())],
                1 => any::<u8>(),
            ];
            let sector = prop_oneof![6 => 0u8..40, 3 => 15u8..=21, 1 => any::<u8>()];
            let op = prop_oneof![
                6 => (track.clone(), sector.clone(), any::<u64>()).prop_map(|(t, s, x)| Op::Write(t, s, x)),
                1 => (track.clone(), sector.clone(), prop_oneof![0usize..256, 257usize..600])
                    .prop_map(|(t, s, n)| Op::WriteLen(t, s, n)),
                3 => (track, sector).prop_map(|(t, s)| Op::Read(t, s)),
                1 => any::<u64>().prop_map(Op::Errors),
                1 => Just(Op::Reopen),
            ];
            (Just(kind), any::<bool>(), any::<u64>(), prop::collection::vec(op, 1..60))
        })
        .prop_map(|(kind, memory, seed, ops)| Io { kind, memory, seed, ops })
        .boxed()
}

fn io(c: &Io, obs: &mut Obs) -> Res {
    let kind = c.kind;
    let mut mirror = vec![0u8; kind.size()];
    Rng::new(c.seed).fill(&mut mirror);
    let mut s = Sut::new(kind, &mirror, c.memory)?;
    let mut writes = 0;
    for (i, op) in c.ops.iter().enumerate() {
        match *op {
            Op::Write(t, x, seed) => {
                let block = crate::util::content(256, seed);
                let at = loc!(s.d(), (t, x));
                let r = s.m().write_sector(at, &block);
                if r.is_ok() != kind.valid((t, x)) {
                    return Err(format!("writing block {:?} of {:?}: {:?}", (t, x), kind, r));
                }
                if r.is_ok() {
                    let o = kind.offset((t, x));
                    mirror[o..o + 256].copy_from_slice(&block);
                    writes += 1;
                }
            }
            Op::WriteLen(t, x, n) => {
                obs.label("wrong-length");
                let at = loc!(s.d(), (t, x));
                match s.m().write_sector(at, &vec![0x55; n]) {
                    Ok(()) => return Err(format!("a block of {} bytes was accepted", n)),
                    Err(ref e) if !kind.valid((t, x)) || derr(e) == Some(DiskError::WriteUnderrun) => {}
                    Err(e) => return Err(format!("a block of {} bytes: {}", n, show_err(&e))),
                }
            }
            Op::Read(t, x) => check_read(kind, s.d(), &mirror, (t, x))?,
            Op::Errors(seed) => {
                let n = kind.data_size();
                let r: Result<bool, String> = {
                    let mut b = s.d().blocks_ref_mut();
                    match b.error_table_mut().map_err(|e| show_err(&e))? {
                        Some(t) => {
                            if t.len() != kind.size() - n {
                                return Err(format!("error table of {} bytes", t.len()));
                            }
                            Rng::new(seed).fill(t);
                            mirror[n..].copy_from_slice(t);
                            Ok(true)
                        }
                        None => Ok(false),
                    }
                };
                if r? != kind.has_errors() {
                    return Err(format!("error table of a {:?} image", kind));
                }
            }
            Op::Reopen => s.reopen(true)?,
        }
        let img = s.image();
        if img != mirror {
            return Err(format!("after step {} {:?}: image {}", i, op, diff(&img, &mirror)));
        }
    }
    if writes > 0 {
        obs.nontrivial();
    }
    Ok(())
}

const SUFFIXES: &[(&str, Option<Family>)] = &[
    (".d64", Some(Family::F1541)),
    (".D64", Some(Family::F1541)),
    (".d71", Some(Family::F1571)),
    (".D71", Some(Family::F1571)),
    (".d81", Some(Family::F1581)),
    (".D81", Some(Family::F1581)),
    (".x.d64", Some(Family::F1541)),
    (".d71.d81", Some(Family::F1581)),
    ("", None),
    (".img", None),
    (".d64x", None),
    (".d6", None),
    (".d64.bak", None),
    (".d80", None),
    ("d64", None),
];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Recognise {
    size: usize,
    suffix: usize,
    fill: u8,
    seed: u64,
    writable: bool,
}

fn sizes() -> BoxedStrategy<usize> {
    let known: Vec<usize> = ALL_KINDS.iter().map(|k| k.size()).collect();
    prop_oneof![
        8 => prop::sample::select(known.clone()),
        4 => (prop::sample::select(known), prop_oneof![Just(1i64), Just(-1), Just(256), Just(-256), Just(683), -4000i64..4000])
            .prop_map(|(n, d)| (n as i64 + d) as usize),
        1 => 0usize..830_000,
        1 => prop_oneof![Just(0usize), Just(1), Just(174_848 + 17 * 256), Just(205_312), Just(206_114), Just(349_696 / 2)],
    ]
    .boxed()
}

/// How an image opened: what shows of its geometry.
fn check_geometry(kind: Kind, d: &DynDisk, bytes: &[u8]) -> Res {
    let (img, table) = (sut::unmetered(|| {
        let b = d.blocks_ref();
        let mut v = vec![];
        for l in kind.locations() {
            match b.sector(loc!(d, l)) {
                Ok(s) => v.extend_from_slice(s),
                Err(e) => return Err(format!("block {:?}: {}", l, show_err(&e))),
            }
        }
        Ok(v)
    })?, {
        let b = d.blocks_ref();
        let t = b.error_table().map_err(|e| show_err(&e))?.map(|t| t.to_vec());
        t
    });
    if img[..] != bytes[..kind.data_size()] {
        return Err(diff(&img, &bytes[..kind.data_size()]));
    }
    let last = kind.tracks();
    for l in [(last, kind.sectors(last)), (last + 1, 0)].iter() {
        if d.read_sector(loc!(d, *l)).is_ok() {
            return Err(format!("block {:?} exists", l));
        }
    }
    match (table, kind.has_errors()) {
        (None, false) => Ok(()),
        (Some(ref t), true) if t[..] == bytes[kind.data_size()..] => Ok(()),
        (t, _) => Err(format!("error table {:?}", t.map(|t| t.len()))),
    }
}

fn recognise(c: &Recognise, obs: &mut Obs) -> Res {
    let (suffix, family) = SUFFIXES[c.suffix % SUFFIXES.len()];
    let path = fresh(suffix);
    let mut bytes = vec![c.fill; c.size];
    if c.fill == 1 {
        Rng::new(c.seed).fill(&mut bytes);
    }
    std::fs::write(&path, &bytes).expect("write scratch file");
    let _rm = Remove(path.clone());
    let by_size: Vec<Kind> = ALL_KINDS.iter().copied().filter(|k| k.size() == c.size).collect();
    let want: Option<Kind> = by_size.first().copied().filter(|k| family.map_or(true, |f| f == k.family()));
    obs.label_if(want.is_some(), "accepted");
    obs.label_if(want.is_none() && !by_size.is_empty(), "extension-contradicts-size");
    obs.label_if(family.is_none(), "by-size-alone");
    if c.size > 0 {
        obs.nontrivial();
    }
    match (disk::open(&path, c.writable), want) {
        (Ok(d), Some(k)) => {
            check_geometry(k, &*d, &bytes).map_err(|e| format!("{:?} opened as another geometry: {}", k, e))?;
            if k.family() == Family::F1581 && d.native_disk_format().first_directory_location().0 != 40
                || k.family() != Family::F1581 && d.native_disk_format().first_directory_location().0 != 18
            {
                return Err(format!("{:?} opened as another type", k));
            }
        }
        (Ok(_), None) => {
            return Err(format!("a {}-byte image named *{:?} was opened", c.size, suffix))
        }
        (Err(e), Some(k)) => {
            return Err(format!("a {:?} image named *{:?} is refused: {}", k, suffix, show_err(&e)))
        }
        (Err(e), None) => {
            if c.size > 0 && derr(&e) != Some(DiskError::InvalidLayout) {
                return Err(format!("a {}-byte image is refused as {}", c.size, show_err(&e)));
            }
        }
    }
    // The specific openers go by size alone.
    for f in [Family::F1541, Family::F1571, Family::F1581].iter() {
        let r = match f {
            Family::F1541 => D64::open(&path, c.writable).map(|d| Box::new(d) as Box<dyn Disk>),
            Family::F1571 => D71::open(&path, c.writable).map(|d| Box::new(d) as Box<dyn Disk>),
            Family::F1581 => D81::open(&path, c.writable).map(|d| Box::new(d) as Box<dyn Disk>),
        };
        let want = by_size.iter().find(|k| k.family() == *f);
        match (r, want) {
            (Ok(d), Some(k)) => check_geometry(*k, &*d, &bytes)?,
            (Err(_), None) => {}
            (Ok(_), None) => return Err(format!("{:?}: a {}-byte image was opened", f, c.size)),
            (Err(e), Some(_)) => return Err(format!("{:?}: a {}-byte image: {}", f, c.size, show_err(&e))),
        }
    }
    if std::fs::read(&path).expect("read") != bytes {
        return Err("opening changed the image".into());
    }
    Ok(())
}

struct Remove(PathBuf);
impl Drop for Remove {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Create {
    kind: Kind,
    create_new: bool,
    existing: Option<(usize, u64)>,
    write: bool,
}

fn create(c: &Create, obs: &mut Obs) -> Res {
    let kind = c.kind;
    let path = fresh(&format!(".{}", kind.extension()));
    let _rm = Remove(path.clone());
    let old = c.existing.map(|(n, s)| crate::util::content(n, s));
    if let Some(ref o) = old {
        std::fs::write(&path, o).expect("write scratch file");
        obs.label("existing-file");
        obs.nontrivial();
    }
    let r = sut::create_image(kind, &path, c.create_new);
    if c.create_new && old.is_some() {
        obs.label("must-refuse");
        if r.is_ok() {
            return Err("an existing file was accepted although a new one was asked for".into());
        }
        if std::fs::read(&path).ok() != old {
            return Err("an existing file was changed although a new one was asked for".into());
        }
        return Ok(());
    }
    let mut d = r.map_err(|e| format!("create failed: {}", show_err(&e)))?;
    let mut img = std::fs::read(&path).map_err(|e| format!("no image file: {}", e))?;
    if img.len() != kind.size() {
        return Err(format!("a {:?} image of {} bytes", kind, img.len()));
    }
    if img.iter().any(|b| *b != 0) {
        return Err("a new image is not blank".into());
    }
    check_geometry(kind, &*d, &img)?;
    // A blank image is unformatted unless its header needs no mark; writing reaches the file.
    if c.write {
        let l = (1u8, 3u8);
        let block = crate::util::content(256, 5);
        let at = loc!(d, l);
        d.write_sector(at, &block).map_err(|e| format!("write: {}", show_err(&e)))?;
        img[kind.offset(l)..kind.offset(l) + 256].copy_from_slice(&block);
        drop(d);
        if std::fs::read(&path).ok() != Some(img.clone()) {
            return Err("a sector written to a new image is not in the file".into());
        }
        d = disk::open(&path, true).map_err(|e| format!("re-open: {}", show_err(&e)))?;
        check_geometry(kind, &*d, &img)?;
    }
    d.write_format(&"new".into(), &sut::id([b'1', b'2']))
        .map_err(|e| format!("a new image cannot be formatted: {}", show_err(&e)))?;
    Ok(())
}

pub fn c06(ctx: &mut Ctx) {
    ctx.exhaustive(
        "addressing",
        24,
        "every address (256 x 256) of every image type in memory, in a file and read-only: read, write, whole image compared",
        &addressing,
    );
    ctx.sub(
        "io",
        14_000,
        "at least one block was written",
        &io_strategy,
        &io,
    );
    ctx.sub(
        "recognition",
        12_000,
        "the file is not empty",
        &|| {
            (sizes(), 0..SUFFIXES.len(), prop_oneof![Just(0u8), Just(1), Just(0xff)], any::<u64>(), any::<bool>())
                .prop_map(|(size, suffix, fill, seed, writable)| Recognise { size, suffix, fill, seed, writable })
                .boxed()
        },
        &recognise,
    );
    ctx.sub(
        "create",
        4_000,
        "a file existed at the path before",
        &|| {
            (
                kind_strategy(),
                any::<bool>(),
                prop::option::weighted(0.7, (prop_oneof![1usize..2000, sizes()], any::<u64>())),
                any::<bool>(),
            )
                .prop_map(|(kind, create_new, existing, write)| Create { kind, create_new, existing, write })
                .boxed()
        },
        &create,
    );
}
