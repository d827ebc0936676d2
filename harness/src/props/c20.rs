//! C20: the disk header.

use cbm::disk::DiskError;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::c14::geos_text;
use super::c18::shown_text;
use crate::foreign::{build, foreign_strategy, Foreign};
use crate::geom::{kind_strategy, Kind};
use crate::loc;
use crate::runner::{Ctx, Obs, Res};
use crate::sut::{derr, id, pet, show_err, view, view_diff, DynDisk, Sut};
use crate::util::{diff, name_strategy, Rng};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Set {
    FirstDir(u8, u8),
    FormatType(u8),
    Name(Vec<u8>),
    Id([u8; 2]),
    Version(u8),
    Type(u8),
    NoGeos,
    Geos(u8, u8),
}

fn set_strategy() -> BoxedStrategy<Set> {
    prop_oneof![
        1 => (any::<u8>(), any::<u8>()).prop_map(|(t, s)| Set::FirstDir(t, s)),
        1 => any::<u8>().prop_map(Set::FormatType),
        4 => name_strategy().prop_map(Set::Name),
        1 => prop::collection::vec(any::<u8>(), 15..19).prop_map(Set::Name),
        2 => any::<[u8; 2]>().prop_map(Set::Id),
        1 => any::<u8>().prop_map(Set::Version),
        1 => any::<u8>().prop_map(Set::Type),
        1 => Just(Set::NoGeos),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(t, s)| Set::Geos(t, s)),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    kind: Kind,
    seed: u64,
    /// 0: noise everywhere, 1: zeros with a noisy header.
    noise: bool,
    /// GEOS signature: None, or how many of its bytes are right.
    geos: Option<u8>,
    mark: bool,
    patch: Vec<(u8, u8)>,
    memory: bool,
    rounds: Vec<Vec<Set>>,
}

fn case_strategy() -> BoxedStrategy<Case> {
    (
        kind_strategy(),
        any::<u64>(),
        any::<bool>(),
        prop_oneof![3 => Just(None), 2 => Just(Some(11u8)), 2 => (0u8..11).prop_map(Some)],
        prop::bool::weighted(0.9),
        prop::collection::vec((any::<u8>(), prop_oneof![Just(0xa0u8), Just(0u8), any::<u8>()]), 0..4),
        any::<bool>(),
        prop::collection::vec(prop::collection::vec(set_strategy(), 0..4), 0..4),
    )
        .prop_map(|(kind, seed, noise, geos, mark, patch, memory, rounds)| Case {
            kind,
            seed,
            noise,
            geos,
            mark,
            patch,
            memory,
            rounds,
        })
        .boxed()
}

const SIGNATURE: &[u8] = b"GEOS format";

/// What the header block says, field by field.
fn check_header(kind: Kind, block: &[u8], d: &DynDisk, shown: bool) -> Res {
    let l = kind.header_layout();
    let h = d.header().map_err(|e| format!("header: {}", show_err(&e)))?;
    let mut bad = vec![];
    let mut is = |what: &str, got: Vec<u8>, want: &[u8]| {
        if got != want {
            bad.push(format!("{} is {:02x?} instead of {:02x?}", what, got, want));
        }
    };
    is("the first directory block", vec![h.first_directory_sector.0, h.first_directory_sector.1], &block[..2]);
    is("the format type", vec![h.disk_format_type], &[block[l.disk_format]]);
    is("the name", h.disk_name.as_bytes().to_vec(), &block[l.name..l.name + 16]);
    is("the id", vec![h.disk_id[0], h.disk_id[1]], &block[l.id..l.id + 2]);
    is("the DOS version", vec![h.directory_dos_version], &[block[l.dos_version]]);
    is("the directory format type", vec![h.directory_format_type], &[block[l.format_type]]);
    let geos = &block[0xad..0xad + SIGNATURE.len()] == SIGNATURE;
    match h.geos {
        Some(ref g) if geos => {
            is("the border block", vec![g.border.0, g.border.1], &block[0xab..0xad]);
            let t = g.id.to_escaped_string();
            is("the GEOS id", t.as_bytes().to_vec(), geos_text(&block[0xad..0xbd]).as_bytes());
        }
        None if !geos => (),
        _ => bad.push(format!("GEOS marker: {} expected, {} reported", geos, h.geos.is_some())),
    }
    if d.name().map(|n| n.as_bytes().to_vec()) != Some(block[l.name..l.name + 16].to_vec()) {
        bad.push(format!("name() is {:?}", d.name()));
    }
    if shown {
        let mut title = format!(
            "0 \"{}\" {} {}",
            shown_text(&block[l.name..l.name + 16]),
            shown_text(&block[l.id..l.id + 2]),
            shown_text(&[block[l.dos_version], block[l.format_type]])
        );
        if geos {
            title += &format!(" ({})", geos_text(&block[0xad..0xbd]));
        }
        let got = format!("{}", d);
        if got != title {
            bad.push(format!("shown as {:?} instead of {:?}", got, title));
        }
    }
    match bad.pop() {
        None => Ok(()),
        Some(s) => Err(s),
    }
}

/// Set fields through the library and in the model of the header block.  Returns whether the
/// header can be stored.
fn apply(kind: Kind, sets: &[Set], s: &mut Sut, block: &mut [u8]) -> Result<bool, String> {
    let l = kind.header_layout();
    let mut long = false;
    let d = s.m();
    for x in sets {
        let at = match x {
            Set::FirstDir(t, s) | Set::Geos(t, s) => Some(loc!(d, (*t, *s))),
            _ => None,
        };
        let h = d.header_mut().map_err(|e| format!("header_mut: {}", show_err(&e)))?;
        match x {
            Set::FirstDir(t, s) => {
                h.first_directory_sector = at.unwrap();
                block[0] = *t;
                block[1] = *s;
            }
            Set::FormatType(b) => {
                h.disk_format_type = *b;
                block[l.disk_format] = *b;
            }
            Set::Name(n) => {
                h.disk_name = pet(n);
                long = n.len() > 16;
                if !long {
                    let mut n = n.clone();
                    n.resize(16, 0xa0);
                    block[l.name..l.name + 16].copy_from_slice(&n);
                }
            }
            Set::Id(b) => {
                h.disk_id = id(*b);
                block[l.id..l.id + 2].copy_from_slice(b);
            }
            Set::Version(b) => {
                h.directory_dos_version = *b;
                block[l.dos_version] = *b;
            }
            Set::Type(b) => {
                h.directory_format_type = *b;
                block[l.format_type] = *b;
            }
            // The GEOS part of the header is not stored.
            Set::NoGeos => h.geos = None,
            Set::Geos(..) => {
                if let Some(ref mut g) = h.geos {
                    g.border = at.unwrap();
                }
            }
        }
    }
    for o in l.padding {
        block[*o] = 0xa0;
    }
    if let Some(o) = l.double_sided {
        block[o] = 0x80;
    }
    Ok(!long)
}

fn header(c: &Case, obs: &mut Obs) -> Res {
    let kind = c.kind;
    let mut rng = Rng::new(c.seed);
    let mut img = vec![0u8; kind.size()];
    let h = kind.offset(kind.header());
    let l = kind.header_layout();
    if c.noise {
        rng.fill(&mut img);
    } else {
        rng.fill(&mut img[h..h + 256]);
    }
    if let Some(n) = c.geos {
        let mut s = SIGNATURE.to_vec();
        if (n as usize) < s.len() {
            s[n as usize] ^= 1 << rng.below(8);
        }
        img[h + 0xad..h + 0xad + s.len()].copy_from_slice(&s);
    }
    for (o, v) in &c.patch {
        img[h + *o as usize] = *v;
    }
    if let Some(o) = l.double_sided {
        img[h + o] = 0x80;
        if !c.mark {
            img[h + o] = rng.byte() & 0x7f | (rng.byte() & 1) << 7 | 1;
        }
    }
    let mut s = Sut::new(kind, &img, c.memory)?;
    if let Some(o) = l.double_sided {
        if img[h + o] != 0x80 {
            obs.label("unmarked");
            if s.d().header().is_ok() {
                return Err("a 1571 header without the double-sided mark was accepted".to_string());
            }
            if s.m().flush_header().is_ok() || s.m().header_mut().is_ok() {
                return Err("header of an unformatted disk could be stored".to_string());
            }
            if s.image() != img {
                return Err("the image changed".to_string());
            }
            return Ok(());
        }
    }
    obs.label_if(c.geos == Some(11), "geos");
    check_header(kind, &img[h..h + 256], s.d(), true)?;
    for sets in &c.rounds {
        let mut block = img[h..h + 256].to_vec();
        let ok = apply(kind, sets, &mut s, &mut block)?;
        match s.m().flush_header() {
            Ok(()) => {
                if !ok {
                    return Err("a name of more than 16 characters was stored".to_string());
                }
                img[h..h + 256].copy_from_slice(&block);
                obs.nontrivial();
            }
            Err(e) => {
                if ok {
                    return Err(format!("flush_header: {}", show_err(&e)));
                }
                if derr(&e) != Some(DiskError::FilenameTooLong) {
                    return Err(format!("overlong name: {}", show_err(&e)));
                }
                obs.label("too long");
            }
        }
        let now = s.image();
        if now != img {
            return Err(format!("image after storing the header: {}", diff(&now, &img)));
        }
        if c.memory {
            s.m().initialize();
        } else {
            s.reopen(true)?;
        }
        check_header(kind, &img[h..h + 256], s.d(), true)?;
    }
    Ok(())
}

/// Changing the header leaves everything else the disk shows alone.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Live {
    image: Foreign,
    sets: Vec<Set>,
    memory: bool,
    /// Allocate or free a block in between.
    map: Option<(usize, bool)>,
}

fn live_strategy() -> BoxedStrategy<Live> {
    (
        foreign_strategy(6, 5, false),
        prop::collection::vec(set_strategy(), 1..5),
        any::<bool>(),
        proptest::option::of((any::<usize>(), any::<bool>())),
    )
        .prop_map(|(image, sets, memory, map)| Live { image, sets, memory, map })
        .boxed()
}

fn live(c: &Live, obs: &mut Obs) -> Res {
    let b = build(&c.image);
    let kind = b.kind;
    let mut img = b.bytes.clone();
    let h = kind.offset(kind.header());
    let mut s = Sut::new(kind, &img, c.memory)?;
    check_header(kind, &img[h..h + 256], s.d(), true)?;
    let before = view(kind, s.d())?;
    // The border block is found through the header: leave the GEOS part alone in memory.
    let sets: Vec<Set> =
        c.sets.iter().filter(|x| !matches!(x, Set::NoGeos | Set::Geos(..))).cloned().collect();
    let mut block = img[h..h + 256].to_vec();
    let ok = apply(kind, &sets, &mut s, &mut block)?;
    match s.m().flush_header() {
        Ok(()) if ok => img[h..h + 256].copy_from_slice(&block),
        Err(ref e) if !ok && derr(e) == Some(DiskError::FilenameTooLong) => (),
        Ok(()) => return Err("a name of more than 16 characters was stored".to_string()),
        Err(e) => return Err(format!("flush_header: {}", show_err(&e))),
    }
    obs.label_if(before.entries.len() > 2, "3+ files");
    if ok && !before.entries.is_empty() {
        obs.nontrivial();
    }
    for round in 0..2 {
        let now = s.image();
        if now != img {
            return Err(format!("image after storing the header: {}", diff(&now, &img)));
        }
        let mut after = view(kind, s.d())?;
        after.name = before.name.clone();
        after.header = before.header.clone();
        after.display = before.display.clone();
        if let Some(e) = view_diff(&before, &after) {
            return Err(format!("after changing the header: {}", e));
        }
        if round == 0 {
            if c.memory {
                s.m().initialize();
            } else {
                s.reopen(true)?;
            }
        }
    }
    check_header(kind, &img[h..h + 256], s.d(), true)?;
    // A change of the map keeps the header.
    if let Some((n, alloc)) = c.map {
        let ls: Vec<_> = kind.locations().into_iter().filter(|l| kind.is_data(*l)).collect();
        let at = loc!(s.d(), ls[n % ls.len()]);
        {
            let bam = s.d().bam().map_err(|e| show_err(&e))?;
            let mut bam = bam.borrow_mut();
            let r = if alloc { bam.allocate(at) } else { bam.free(at) };
            if r.is_ok() {
                bam.flush().map_err(|e| format!("flush: {}", show_err(&e)))?;
            }
        }
        s.reopen(true)?;
        check_header(kind, &img[h..h + 256], s.d(), true)?;
    }
    Ok(())
}

pub fn c20(ctx: &mut Ctx) {
    ctx.sub("header", 20_000, "a changed header was stored", &case_strategy, &header);
    ctx.sub("live", 8_000, "a changed header was stored on a disk with files", &live_strategy, &live);
}
