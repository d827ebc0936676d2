//! C12: read-only images, and reading from writable ones.

use std::io::{self, Read, Write};

use cbm::disk::file::{File, FileOps, Scheme};
use cbm::disk::DiskError;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::c10::{damage, damage_strategy, Damage};
use crate::foreign::{build, foreign_strategy, Foreign};
use crate::loc;
use crate::raw;
use crate::runner::{Ctx, Obs, Res};
use crate::sut::{self, derr, file_type, id, pet, show_err, view, view_diff, Sut};
use crate::util::{content, diff, name_strategy};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ask {
    Format { name: Vec<u8>, id: [u8; 2] },
    Create { name: Vec<u8>, ftype: u8 },
    CreateDup { sel: usize, ftype: u8 },
    Append { sel: usize, len: usize, chunk: usize, flush: bool },
    Rename { sel: usize, to: Vec<u8> },
    RenameOnto { sel: usize, other: usize },
    RenameMissing { name: Vec<u8>, to: Vec<u8> },
    Delete { sel: usize },
    Sector { t: u8, s: u8, len: usize },
    Block { n: usize },
    ErrorTable,
    HeaderMut,
    FlushHeader,
    FlushMap,
    Slot,
    Store { sel: usize },
    Reopen,
}

fn ask_strategy() -> BoxedStrategy<Ask> {
    let f = any::<usize>;
    let name = || prop_oneof![6 => name_strategy(), 1 => prop::collection::vec(0x41u8..0x5b, 17..20)];
    prop_oneof![
        2 => (name(), any::<[u8; 2]>()).prop_map(|(name, id)| Ask::Format { name, id }),
        4 => (name(), 0u8..=3).prop_map(|(name, ftype)| Ask::Create { name, ftype }),
        1 => (f(), 0u8..=3).prop_map(|(sel, ftype)| Ask::CreateDup { sel, ftype }),
        5 => (f(), prop_oneof![1usize..3, 1usize..1200], 1usize..600, any::<bool>())
            .prop_map(|(sel, len, chunk, flush)| Ask::Append { sel, len, chunk, flush }),
        4 => (f(), name()).prop_map(|(sel, to)| Ask::Rename { sel, to }),
        1 => (f(), f()).prop_map(|(sel, other)| Ask::RenameOnto { sel, other }),
        1 => (name(), name()).prop_map(|(name, to)| Ask::RenameMissing { name, to }),
        5 => f().prop_map(|sel| Ask::Delete { sel }),
        2 => (0u8..=82, 0u8..=41, prop_oneof![4 => Just(256usize), 1 => 0usize..300])
            .prop_map(|(t, s, len)| Ask::Sector { t, s, len }),
        1 => f().prop_map(|n| Ask::Block { n }),
        1 => Just(Ask::ErrorTable),
        1 => Just(Ask::HeaderMut),
        1 => Just(Ask::FlushHeader),
        1 => Just(Ask::FlushMap),
        1 => Just(Ask::Slot),
        1 => f().prop_map(|sel| Ask::Store { sel }),
        1 => Just(Ask::Reopen),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    image: Foreign,
    /// Mark all data blocks allocated.
    full: bool,
    asks: Vec<Ask>,
}

fn case_strategy() -> BoxedStrategy<Case> {
    (
        prop_oneof![5 => foreign_strategy(8, 5, false), 1 => foreign_strategy(40, 2, false)],
        prop::bool::weighted(0.15),
        prop::collection::vec(ask_strategy(), 1..=8),
    )
        .prop_map(|(image, full, asks)| Case { image, full, asks })
        .boxed()
}

/// The request must have failed: with the read-only error, or, where the request is bad in
/// itself, with the error for that.
fn refused<T>(what: &Ask, r: io::Result<T>, also: &[DiskError]) -> Res {
    match r {
        Ok(_) => Err(format!("{:?} succeeded on a read-only image", what)),
        Err(e) => match derr(&e) {
            Some(DiskError::ReadOnly) => Ok(()),
            Some(ref d) if also.contains(d) => Ok(()),
            _ => Err(format!("{:?} on a read-only image: {}", what, show_err(&e))),
        },
    }
}

fn readonly(c: &Case, obs: &mut Obs) -> Res {
    let b = build(&c.image);
    let kind = b.kind;
    let mut img = b.bytes.clone();
    if c.full {
        for t in 1..=kind.dos_tracks() {
            raw::set_bam(kind, &mut img, t, 0, 0);
        }
        obs.label("full");
    }
    let mut s = Sut::file(kind, &img, false)?;
    let before = view(kind, s.d())?;
    let pick = |sel: usize| {
        let n = b.files.len();
        if n == 0 {
            None
        } else {
            Some(&b.files[sel % n])
        }
    };
    let exists = |n: &[u8]| b.files.iter().any(|f| f.name == n);
    for a in &c.asks {
        match *a {
            Ask::Format { ref name, id: i } => {
                obs.label("format");
                let r = s.m().write_format(&pet(name), &id(i));
                refused(a, r, if name.len() > 16 { &[DiskError::FilenameTooLong] } else { &[] })?;
            }
            Ask::Create { ref name, ftype } => {
                obs.label("create");
                let mut also = vec![];
                if name.len() > 16 {
                    also.push(DiskError::FilenameTooLong);
                }
                if exists(name) {
                    also.push(DiskError::FileExists);
                }
                if c.full {
                    also.push(DiskError::DiskFull);
                }
                let r = s.m().create_file(&pet(name), file_type(ftype), Scheme::Linear);
                refused(a, r.map(|_| ()), &also)?;
            }
            Ask::CreateDup { sel, ftype } => {
                if let Some(f) = pick(sel) {
                    let r = s.m().create_file(&pet(&f.name), file_type(ftype), Scheme::Linear);
                    refused(a, r.map(|_| ()), &[DiskError::FileExists, DiskError::DiskFull])?;
                }
            }
            Ask::Append { sel, len, chunk, flush } => {
                if let Some(m) = pick(sel) {
                    let f = s
                        .d()
                        .open_file(&pet(&m.name))
                        .map_err(|e| format!("opening {:?}: {}", m.name, show_err(&e)))?;
                    let linear = matches!(m.body, crate::foreign::Body::Linear { .. });
                    let r = (|| {
                        let mut w = f.writer()?;
                        for c in content(len, 5).chunks(chunk) {
                            w.write_all(c)?;
                        }
                        if !flush {
                            // Dropped without a flush: nothing is reported, nothing happens.
                            return Err(DiskError::ReadOnly.into());
                        }
                        w.flush()
                    })();
                    obs.label(if linear { "append" } else { "append-nonlinear" });
                    refused(
                        a,
                        r,
                        if !linear {
                            &[DiskError::NonLinearFile]
                        } else if c.full {
                            &[DiskError::DiskFull]
                        } else {
                            &[]
                        },
                    )?;
                }
            }
            Ask::Rename { sel, ref to } => {
                if let Some(m) = pick(sel) {
                    obs.label("rename");
                    let mut also = vec![];
                    if to.len() > 16 {
                        also.push(DiskError::FilenameTooLong);
                    }
                    if exists(to) {
                        also.push(DiskError::FileExists);
                    }
                    refused(a, s.m().rename(&pet(&m.name), &pet(to)), &also)?;
                }
            }
            Ask::RenameOnto { sel, other } => {
                if let (Some(m), Some(o)) = (pick(sel), pick(other)) {
                    refused(a, s.m().rename(&pet(&m.name), &pet(&o.name)), &[DiskError::FileExists])?;
                }
            }
            Ask::RenameMissing { ref name, ref to } => {
                if !exists(name) {
                    refused(
                        a,
                        s.m().rename(&pet(name), &pet(to)),
                        &[DiskError::NotFound, DiskError::FileExists, DiskError::FilenameTooLong],
                    )?;
                }
            }
            Ask::Delete { sel } => {
                if let Some(m) = pick(sel) {
                    let mut f = s
                        .d()
                        .open_file(&pet(&m.name))
                        .map_err(|e| format!("opening {:?}: {}", m.name, show_err(&e)))?;
                    obs.label(match m.body {
                        crate::foreign::Body::Linear { .. } => "delete",
                        crate::foreign::Body::Rel { .. } => "delete-rel",
                        _ => "delete-geos",
                    });
                    refused(a, f.delete(), &[])?;
                }
            }
            Ask::Sector { t, s: sec, len } => {
                let l = loc!(s.d(), (t, sec));
                let mut also = vec![];
                if !kind.valid((t, sec)) {
                    also.push(DiskError::InvalidLocation);
                }
                if len != 256 {
                    also.push(DiskError::WriteUnderrun);
                }
                refused(a, s.m().write_sector(l, &content(len, 1)), &also)?;
            }
            Ask::Block { n } => {
                let v = kind.locations();
                let l = loc!(s.d(), v[n % v.len()]);
                let r = s.d().blocks_ref_mut().sector_mut(l).map(|_| ());
                refused(a, r, &[])?;
            }
            Ask::ErrorTable => {
                let blocks = s.d();
                let mut blocks = blocks.blocks_ref_mut();
                match blocks.error_table_mut() {
                    Ok(None) if !kind.has_errors() => {}
                    r => refused(a, r.map(|_| ()), &[])?,
                }
            }
            Ask::HeaderMut => refused(a, s.m().header_mut().map(|_| ()), &[])?,
            Ask::FlushHeader => refused(a, s.m().flush_header(), &[])?,
            Ask::FlushMap => {
                let bam = s.d().bam().map_err(|e| show_err(&e))?;
                let r = bam.borrow_mut().flush();
                refused(a, r, &[])?;
            }
            Ask::Slot => match s.m().next_free_directory_entry() {
                // Finding a slot is not yet a change.
                Ok(_) => {}
                r => refused(a, r.map(|_| ()), &[DiskError::DiskFull])?,
            },
            Ask::Store { sel } => {
                if let Some(m) = pick(sel) {
                    let mut e = s.d().find_directory_entry(&pet(&m.name)).map_err(|e| show_err(&e))?;
                    e.filename = pet(b"OTHER");
                    refused(a, s.m().write_directory_entry(&e), &[])?;
                }
            }
            Ask::Reopen => s.reopen(false)?,
        }
        let now = s.image();
        if now != img {
            return Err(format!("{:?} changed the read-only image: {}", a, diff(&now, &img)));
        }
        let v = view(kind, s.d()).map_err(|e| format!("after {:?}: {}", a, e))?;
        if let Some(m) = view_diff(&v, &before) {
            return Err(format!("{:?} failed, but the handle now reports: {}", a, m));
        }
        obs.nontrivial();
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Reading {
    image: Foreign,
    memory: bool,
    damage: Vec<Damage>,
    /// Order of the read operations.
    order: Vec<(u8, usize)>,
}

fn reading_strategy() -> BoxedStrategy<Reading> {
    (
        foreign_strategy(8, 5, true),
        any::<bool>(),
        prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(damage_strategy(), 1..=3)],
        prop::collection::vec((0u8..16, any::<usize>()), 1..=20),
    )
        .prop_map(|(image, memory, damage, order)| Reading { image, memory, damage, order })
        .boxed()
}

fn reading(c: &Reading, obs: &mut Obs) -> Res {
    let b = build(&c.image);
    let kind = b.kind;
    let mut img = b.bytes.clone();
    for d in &c.damage {
        damage(&b, &mut img, d);
    }
    let mut s = Sut::new(kind, &img, c.memory)?;
    let same = |s: &Sut, what: &str| -> Res {
        let now = s.image();
        if now != img {
            return Err(format!("{} changed the image: {}", what, diff(&now, &img)));
        }
        Ok(())
    };
    same(&s, "opening")?;
    for (op, sel) in &c.order {
        let entries = s.d().directory().unwrap_or_default();
        let e = entries.get(sel % entries.len().max(1)).cloned();
        let file = e.as_ref().and_then(|e| s.d().open_file_from_entry(e).ok());
        let what = match op {
            0 => {
                let _ = s.d().validate();
                "validating"
            }
            1 => {
                let _ = s.m().dump(&mut io::sink());
                "dumping"
            }
            2 => {
                let _ = format!("{}", s.d());
                let _ = s.d().blocks_free();
                let _ = s.d().header();
                "asking for the title and the free blocks"
            }
            3 => {
                if let Ok(bam) = s.d().bam() {
                    let b = bam.borrow();
                    let _ = format!("{:?}", b);
                    let _ = b.next_free_block(None);
                    let _ = b.allocated_sectors();
                    let _ = b.free_sectors();
                }
                "asking for the availability map"
            }
            4 => {
                let _ = s.d().find_directory_entry(&pet(b"NOSUCHFILE"));
                let _ = s.d().open_file(&pet(b"NOSUCHFILE")).map(|_| ());
                let _ = s.d().iter().count();
                "searching"
            }
            5 => {
                let v = kind.locations();
                let l = loc!(s.d(), v[sel % v.len()]);
                let _ = s.d().read_sector(l);
                "reading a sector"
            }
            6 => {
                s.reopen(true)?;
                "re-opening"
            }
            _ => match file {
                Some(ref f) => {
                    match op {
                        7 | 8 => {
                            if let Ok(mut r) = f.reader() {
                                let mut v = vec![0; 1 + sel % 700];
                                while let Ok(n) = r.read(&mut v) {
                                    if n == 0 {
                                        break;
                                    }
                                }
                            }
                        }
                        9 => {
                            let _ = f.details(&mut io::sink(), 3);
                        }
                        10 => {
                            let _ = f.dump(&mut io::sink());
                        }
                        11 => {
                            let _ = f.occupied_sectors();
                        }
                        12 => {
                            let _ = f.geos_info();
                        }
                        13 => match f {
                            File::GEOSSequential(g) | File::GEOSVLIR(g) => {
                                if let Ok(mut r) = g.reader() {
                                    let _ = crate::util::drain(&mut r, 256 << 20, &mut vec![]);
                                }
                            }
                            _ => {}
                        },
                        _ => {
                            let _ = sut::records(f);
                        }
                    }
                    obs.nontrivial();
                    "reading a file"
                }
                None => "nothing",
            },
        };
        same(&s, what)?;
    }
    Ok(())
}

pub fn c12(ctx: &mut Ctx) {
    ctx.sub(
        "readonly",
        60000,
        "disks of all file kinds opened read-only, every kind of change requested in any order; non-trivial: at least one request was made",
        &case_strategy,
        &readonly,
    );
    ctx.sub(
        "reading",
        30000,
        "every read operation in any order on writable (also damaged) images; non-trivial: a file was read",
        &reading_strategy,
        &reading,
    );
}
