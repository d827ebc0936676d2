//! C09: directory entries.

use cbm::disk::directory::{DirectoryEntry, Extra, FileType};
use cbm::disk::file::{FileOps, Scheme};
use cbm::disk::geos::{GEOSFileStructure, GEOSFileType};
use cbm::disk::DiskError;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::foreign::{build, foreign_strategy, Foreign};
use crate::geom::{kind_strategy, Kind, Loc};
use crate::loc;
use crate::raw::{REntry, Raw};
use crate::runner::{Ctx, Obs, Res};
use crate::sut::{self, derr, file_type, pet, show_err, LEntry, Sut};
use crate::util::{diff, name_strategy, show_bytes, Rng};

/// A directory of arbitrary entries.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Slots {
    pub kind: Kind,
    pub blocks: u8,
    /// Slot number and contents; others are scratched and empty.
    pub slots: Vec<(u16, Vec<u8>)>,
    pub border: bool,
    pub seed: u64,
    /// Second link byte of the last directory block: the index of its last used byte.
    #[serde(default = "whole")]
    pub tail: u8,
}

fn whole() -> u8 {
    0xff
}

fn entry_bytes() -> BoxedStrategy<Vec<u8>> {
    (
        prop_oneof![
            3 => crate::foreign::attr_strategy(),
            3 => any::<u8>(),
            1 => (0u8..16).prop_map(|x| x << 4),
            1 => (0u8..16).prop_map(|x| x << 4 | 4),
        ],
        any::<[u8; 2]>(),
        prop_oneof![
            4 => name_strategy().prop_map(|n| { let mut v = n; v.resize(16, 0xa0); v }),
            2 => prop::collection::vec(any::<u8>(), 16),
            1 => prop::collection::vec(prop_oneof![Just(0xa0u8), Just(0x41)], 16),
        ],
        prop_oneof![
            2 => Just(vec![0u8; 9]),
            4 => prop::collection::vec(any::<u8>(), 9),
            3 => (any::<[u8; 2]>(), 0u8..3, any::<u8>(), any::<[u8; 5]>())
                .prop_map(|(i, s, t, d)| { let mut v = i.to_vec(); v.push(s); v.push(t); v.extend_from_slice(&d); v }),
        ],
        any::<u16>(),
        any::<[u8; 2]>(),
    )
        .prop_map(|(attr, first, name, extra, size, link)| {
            let mut v = link.to_vec();
            v.push(attr);
            v.extend_from_slice(&first);
            v.extend_from_slice(&name);
            v.extend_from_slice(&extra);
            v.extend_from_slice(&size.to_le_bytes());
            v
        })
        .boxed()
}

pub fn slots_strategy() -> BoxedStrategy<Slots> {
    (
        kind_strategy(),
        prop_oneof![3 => 1u8..4, 1 => 1u8..20],
        prop::collection::vec((any::<u16>(), entry_bytes()), 1..24),
        any::<bool>(),
        any::<u64>(),
        prop_oneof![3 => Just(0xffu8), 1 => 1u8..=255, 1 => (1u8..=8).prop_map(|n| (n as u16 * 32 - 1) as u8)],
    )
        .prop_map(|(kind, blocks, slots, border, seed, tail)| Slots { kind, blocks, slots, border, seed, tail })
        .boxed()
}

pub fn make_slots(c: &Slots) -> Vec<u8> {
    let kind = c.kind;
    let mut rng = Rng::new(c.seed);
    let mut errors = vec![0u8; kind.size() - kind.data_size()];
    rng.fill(&mut errors);
    let mut img = super::c05::blank_image(kind, b"SLOTS", *b"01", &errors);
    let mut pool: Vec<Loc> = (0..kind.sectors(kind.dir_track()))
        .map(|s| (kind.dir_track(), s))
        .filter(|l| !kind.system().contains(l))
        .collect();
    rng.shuffle(&mut pool);
    let mut dir = vec![kind.first_dir()];
    while dir.len() < c.blocks as usize {
        match pool.pop() {
            Some(l) => dir.push(l),
            None => break,
        }
    }
    let mut blocks = dir.clone();
    if c.border {
        let data: Vec<Loc> = kind.locations().into_iter().filter(|l| kind.is_data(*l)).collect();
        let b = data[rng.below(data.len())];
        let h = kind.offset(kind.header());
        img[h + 0xab] = b.0;
        img[h + 0xac] = b.1;
        img[h + 0xad..h + 0xad + 16].copy_from_slice(b"GEOS format V1.0");
        img[kind.offset(b) + 1] = 0xff;
        blocks.push(b);
    }
    for (n, bytes) in &c.slots {
        let n = *n as usize % (blocks.len() * 8);
        let o = kind.offset(blocks[n / 8]) + n % 8 * 32;
        img[o..o + 32].copy_from_slice(bytes);
    }
    for (i, l) in blocks.iter().enumerate() {
        let o = kind.offset(*l);
        if i + 1 < dir.len() {
            img[o] = dir[i + 1].0;
            img[o + 1] = dir[i + 1].1;
        } else {
            img[o] = 0;
            img[o + 1] = if i + 1 == dir.len() { c.tail } else { 0xff };
        }
    }
    // The map: directory and border in use.
    let raw_bits: Vec<u64> = (1..=kind.dos_tracks()).map(|t| Raw::new(kind, &img).bam_bits(t)).collect();
    for t in 1..=kind.dos_tracks() {
        let mut b = raw_bits[t as usize - 1];
        for l in &blocks {
            if l.0 == t {
                b &= !(1 << l.1);
            }
        }
        crate::raw::set_bam(kind, &mut img, t, b.count_ones() as u8, b);
    }
    img
}

fn expected(e: &REntry) -> LEntry {
    LEntry {
        name: e.name(),
        attr: e.attr(),
        first: e.first(),
        size: e.size(),
        extra: e.bytes[0x15..0x1e].to_vec(),
        scheme: e.scheme(),
        border: e.border,
        position: Some((e.block, e.offset as u8, 32)),
    }
}

fn check_listing(kind: Kind, s: &Sut, img: &[u8], obs: &mut Obs) -> Result<Vec<REntry>, String> {
    let raw = Raw::new(kind, img);
    let want = raw.entries().map_err(|e| format!("directory: {:?}", e))?;
    let got = sut::listing(s.d()).map_err(|e| format!("listing: {}", show_err(&e)))?;
    for i in 0..got.len().max(want.len()) {
        let w = want.get(i).map(expected);
        if got.get(i) != w.as_ref() {
            return Err(format!("entry {}: listed {:?}, stored {:?}", i, got.get(i), w));
        }
    }
    // The iterator and the lookup by name agree with the listing.
    let mut n = 0;
    for (i, e) in s.d().iter().enumerate() {
        let e = e.map_err(|e| format!("iterating: {}", show_err(&e)))?;
        if got.get(i) != Some(&sut::plain_entry(&e)) {
            return Err(format!("iterator entry {}: {:?}", i, sut::plain_entry(&e)));
        }
        n += 1;
    }
    if n != got.len() {
        return Err("the iterator stops early".into());
    }
    for w in &want {
        let first = want.iter().find(|x| x.name() == w.name()).unwrap();
        match s.d().find_directory_entry(&pet(&w.name())) {
            Ok(e) => {
                if sut::plain_entry(&e) != expected(first) {
                    return Err(format!("looking up {} finds {:?}", show_bytes(&w.name()), e));
                }
            }
            Err(e) => return Err(format!("looking up {}: {}", show_bytes(&w.name()), show_err(&e))),
        }
        obs.label_if(first != w, "duplicate-name");
    }
    Ok(want)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ListCase {
    image: Slots,
    memory: bool,
    absent: Vec<u8>,
}

fn list(c: &ListCase, obs: &mut Obs) -> Res {
    let kind = c.image.kind;
    let img = make_slots(&c.image);
    let s = Sut::new(kind, &img, c.memory)?;
    let want = check_listing(kind, &s, &img, obs)?;
    obs.label_if(want.iter().any(|e| e.border), "border-entries");
    obs.label_if(want.iter().any(|e| e.scheme() == crate::raw::Scheme::Rel), "relative");
    obs.label_if(want.iter().any(|e| e.scheme() == crate::raw::Scheme::Vlir), "vlir");
    obs.label_if(want.is_empty(), "empty");
    obs.label_if(c.image.tail < 0xff, "partly-used-last-block");
    if want.len() > 1 {
        obs.nontrivial();
    }
    if !want.iter().any(|e| e.name() == c.absent) {
        match s.d().find_directory_entry(&pet(&c.absent)) {
            Err(ref e) if derr(e) == Some(DiskError::NotFound) => {}
            r => return Err(format!("looking up an absent name: {:?}", r)),
        }
    }
    if s.image() != img {
        return Err("listing changed the image".into());
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Change {
    Nothing,
    Name(Vec<u8>),
    Type(u8),
    Flags(u8),
    First(u8, u8),
    Size(u16),
    /// Byte of the nine metadata bytes.
    Extra(u8, u8),
    Rename(Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rewrite {
    image: Slots,
    memory: bool,
    changes: Vec<(usize, Change)>,
}

fn change_strategy() -> BoxedStrategy<Change> {
    prop_oneof![
        2 => Just(Change::Nothing),
        2 => name_strategy().prop_map(Change::Name),
        1 => prop::collection::vec(any::<u8>(), 17..=40).prop_map(Change::Name),
        2 => (1u8..16).prop_map(Change::Type),
        2 => (0u8..16).prop_map(Change::Flags),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(t, s)| Change::First(t, s)),
        2 => prop_oneof![any::<u16>(), 0u16..3].prop_map(Change::Size),
        3 => (0u8..9, any::<u8>()).prop_map(|(i, v)| Change::Extra(i, v)),
        3 => prop_oneof![name_strategy(), prop::collection::vec(0x41u8..=0x5a, 17..=18)].prop_map(Change::Rename),
    ]
    .boxed()
}

/// Set one of the nine metadata bytes through the entry's fields.
fn set_extra(d: &sut::DynDisk, x: &mut Extra, i: u8, v: u8) {
    let i = i as usize;
    match x {
        Extra::Linear(e) => e.unused[i] = v,
        Extra::Relative(e) => match i {
            0 => e.first_side_sector = loc!(d, (v, e.first_side_sector.1)),
            1 => e.first_side_sector = loc!(d, (e.first_side_sector.0, v)),
            2 => e.record_length = v,
            _ => e.unused[i - 3] = v,
        },
        Extra::GEOS(e) => match i {
            0 => e.info_block = loc!(d, (v, e.info_block.1)),
            1 => e.info_block = loc!(d, (e.info_block.0, v)),
            2 => e.structure = GEOSFileStructure::from_byte(v),
            3 => e.geos_file_type = GEOSFileType::from_byte(v),
            4 => e.year = v,
            5 => e.month = v,
            6 => e.day = v,
            7 => e.hour = v,
            _ => e.minute = v,
        },
    }
}

fn rewrite(c: &Rewrite, obs: &mut Obs) -> Res {
    let kind = c.image.kind;
    let mut img = make_slots(&c.image);
    let mut s = Sut::new(kind, &img, c.memory)?;
    for (i, (sel, ch)) in c.changes.iter().enumerate() {
        let raw = Raw::new(kind, &img);
        let entries = raw.entries().map_err(|e| format!("directory: {:?}", e))?;
        if entries.is_empty() {
            return Ok(());
        }
        let e = entries[sel % entries.len()].clone();
        let o = kind.offset(e.block) + e.offset;
        obs.nontrivial();
        if let Change::Rename(to) = ch {
            // Renaming goes by name: the first entry with that name.
            let e = entries.iter().find(|x| x.name() == e.name()).unwrap();
            let o = kind.offset(e.block) + e.offset;
            let taken = entries.iter().any(|x| x.name() == *to);
            let r = s.m().rename(&pet(&e.name()), &pet(to));
            match r {
                Ok(()) if !taken && to.len() <= 16 => {
                    for j in 0..16 {
                        img[o + 5 + j] = *to.get(j).unwrap_or(&0xa0);
                    }
                    obs.label("renamed");
                }
                Err(ref e) if to.len() > 16 && derr(e) == Some(DiskError::FilenameTooLong) => {}
                Err(ref e) if taken && derr(e) == Some(DiskError::FileExists) => {}
                r => return Err(format!("step {}: rename {} to {}: {:?}", i, show_bytes(&e.name()), show_bytes(to), r)),
            }
        } else {
            let pos = entries.iter().position(|x| *x == e).unwrap();
            let mut d: DirectoryEntry = s.d().directory().map_err(|e| show_err(&e))?.remove(pos);
            if let Change::Name(n) = ch {
                if n.len() > 16 {
                    d.filename = pet(n);
                    d.file_size ^= 1;
                    let r = s.m().write_directory_entry(&d);
                    if r.as_ref().err().and_then(derr) != Some(DiskError::FilenameTooLong) {
                        return Err(format!("step {}: writing an entry with a name of {} codes: {:?}", i, n.len(), r));
                    }
                    if s.image() != img {
                        return Err(format!("step {}: a refused entry changed the image", i));
                    }
                    obs.label("overlong-name");
                    continue;
                }
            }
            match ch {
                Change::Nothing | Change::Rename(_) => {}
                Change::Name(n) => {
                    d.filename = pet(n);
                    for j in 0..16 {
                        img[o + 5 + j] = *n.get(j).unwrap_or(&0xa0);
                    }
                }
                Change::Type(t) => {
                    d.file_attributes.file_type = file_type(*t);
                    img[o + 2] = img[o + 2] & 0xf0 | t;
                }
                Change::Flags(f) => {
                    d.file_attributes.unused_bit = f & 1 != 0;
                    d.file_attributes.save_with_replace_flag = f & 2 != 0;
                    d.file_attributes.locked_flag = f & 4 != 0;
                    d.file_attributes.closed_flag = f & 8 != 0;
                    img[o + 2] = img[o + 2] & 0x0f | f << 4;
                }
                Change::First(t, x) => {
                    d.first_sector = loc!(s.d(), (*t, *x));
                    img[o + 3] = *t;
                    img[o + 4] = *x;
                }
                Change::Size(n) => {
                    d.file_size = *n;
                    img[o + 0x1e] = *n as u8;
                    img[o + 0x1f] = (*n >> 8) as u8;
                }
                Change::Extra(j, v) => {
                    set_extra(s.d(), &mut d.extra, *j, *v);
                    img[o + 0x15 + *j as usize] = *v;
                }
            }
            s.m()
                .write_directory_entry(&d)
                .map_err(|e| format!("step {}: {}", i, show_err(&e)))?;
        }
        let after = s.image();
        if after != img {
            return Err(format!("step {} {:?} on {:?}: image {}", i, ch, e, diff(&after, &img)));
        }
        check_listing(kind, &s, &img, obs)?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Act {
    Delete(usize),
    Rename(usize, Vec<u8>),
    Create(Vec<u8>, u8),
    Grow(usize, usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Live {
    image: Foreign,
    memory: bool,
    acts: Vec<Act>,
}

/// The slots of two images may differ only in the given slot.
fn other_slots_equal(kind: Kind, a: &[u8], b: &[u8], except: Option<(Loc, usize)>) -> Res {
    let x = Raw::new(kind, a).slots().map_err(|e| format!("directory: {:?}", e))?;
    let y = Raw::new(kind, b).slots().map_err(|e| format!("directory: {:?}", e))?;
    for p in &x {
        if Some((p.block, p.offset)) == except {
            continue;
        }
        match y.iter().find(|q| q.block == p.block && q.offset == p.offset) {
            // The link of a directory block that was extended.
            Some(q) if q.bytes[2..] == p.bytes[2..] && (q.bytes[..2] == p.bytes[..2] || p.offset == 0) => {}
            q => return Err(format!("another entry changed: {:?} / {:?}", p, q)),
        }
    }
    for q in &y {
        if !x.iter().any(|p| p.block == q.block && p.offset == q.offset)
            && Some((q.block, q.offset)) != except
            && !q.scratched()
        {
            return Err(format!("a new directory block holds {:?}", q));
        }
    }
    Ok(())
}

fn live(c: &Live, obs: &mut Obs) -> Res {
    let b = build(&c.image);
    let kind = b.kind;
    let mut s = Sut::new(kind, &b.bytes, c.memory)?;
    for (i, act) in c.acts.iter().enumerate() {
        let before = s.image();
        let raw = Raw::new(kind, &before);
        let entries = raw.entries().map_err(|e| format!("directory: {:?}", e))?;
        let (who, mut slot): (Option<REntry>, _) = match act {
            Act::Delete(n) | Act::Rename(n, _) | Act::Grow(n, _) if !entries.is_empty() => {
                let e = entries[n % entries.len()].clone();
                let at = (e.block, e.offset);
                (Some(e), Some(at))
            }
            Act::Create(..) => (None, None),
            _ => continue,
        };
        let mut want = who.as_ref().map(|e| e.bytes.to_vec());
        let mut size_free = false;
        match act {
            Act::Delete(_) => {
                let e = who.as_ref().unwrap();
                obs.label("deleted");
                s.d()
                    .open_file(&pet(&e.name()))
                    .and_then(|mut f| f.delete())
                    .map_err(|x| format!("step {}: deleting {:?}: {}", i, e, show_err(&x)))?;
                let w = want.as_mut().unwrap();
                w[2] &= 0x70;
            }
            Act::Rename(_, to) => {
                let e = who.as_ref().unwrap();
                match s.m().rename(&pet(&e.name()), &pet(to)) {
                    Ok(()) => {
                        obs.label("renamed");
                        let w = want.as_mut().unwrap();
                        for j in 0..16 {
                            w[5 + j] = *to.get(j).unwrap_or(&0xa0);
                        }
                    }
                    Err(_) => {}
                }
            }
            Act::Grow(_, len) => {
                let e = who.as_ref().unwrap();
                if e.scheme() == crate::raw::Scheme::Linear {
                    obs.label("appended");
                    let _ = sut::append(s.d(), &e.name(), &crate::util::content(*len, 3), 1000);
                    size_free = true;
                }
            }
            Act::Create(name, t) => match s.m().create_file(&pet(name), file_type(*t), Scheme::Linear) {
                Ok(f) => {
                    obs.label("created");
                    let p = f.entry().position.ok_or("a new entry has no position")?;
                    let at = ((p.location.0, p.location.1), p.offset as usize);
                    drop(f);
                    let img = s.image();
                    let now = Raw::new(kind, &img).entries().map_err(|e| format!("directory: {:?}", e))?;
                    let e = now
                        .iter()
                        .find(|e| (e.block, e.offset) == at)
                        .ok_or("the new entry is not where it says")?;
                    let old = raw
                        .slots()
                        .map_err(|e| format!("directory: {:?}", e))?
                        .into_iter()
                        .find(|x| (x.block, x.offset) == at);
                    if let Some(ref o) = old {
                        if !o.scratched() {
                            return Err(format!("the new entry overwrote {:?}", o));
                        }
                        obs.label("slot-reused");
                    }
                    let mut w = vec![0u8; 32];
                    match old {
                        Some(ref o) => w[..2].copy_from_slice(&o.bytes[..2]),
                        None => w[..2].copy_from_slice(&e.bytes[..2]),
                    }
                    w[2] = 0x80 | t;
                    w[3] = e.bytes[3];
                    w[4] = e.bytes[4];
                    for j in 0..16 {
                        w[5 + j] = *name.get(j).unwrap_or(&0xa0);
                    }
                    w[0x1e] = 1;
                    want = Some(w);
                    slot = Some(at);
                }
                Err(_) => {}
            },
        }
        let after = s.image();
        other_slots_equal(kind, &before, &after, slot).map_err(|e| format!("step {} {:?}: {}", i, act, e))?;
        if let (Some(at), Some(w)) = (slot, want) {
            obs.nontrivial();
            let now = Raw::new(kind, &after).slots().map_err(|e| format!("directory: {:?}", e))?;
            let e = now.iter().find(|e| (e.block, e.offset) == at).ok_or("the slot is gone")?;
            let n = if size_free { 0x1e } else { 32 };
            if e.bytes[2..n] != w[2..n] || e.offset != 0 && e.bytes[..2] != w[..2] {
                return Err(format!("step {} {:?}: entry {}, should be {}", i, act, show_all(&e.bytes), show_all(&w)));
            }
        }
        check_listing(kind, &s, &after, obs)?;
    }
    Ok(())
}

fn show_all(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub fn c09(ctx: &mut Ctx) {
    let _ = FileType::DEL;
    ctx.sub(
        "listing",
        30_000,
        "at least two live entries",
        &|| {
            (slots_strategy(), any::<bool>(), name_strategy())
                .prop_map(|(image, memory, absent)| ListCase { image, memory, absent })
                .boxed()
        },
        &list,
    );
    ctx.sub(
        "rewrite",
        16_000,
        "an entry was written back",
        &|| {
            (slots_strategy(), any::<bool>(), prop::collection::vec((any::<usize>(), change_strategy()), 1..8))
                .prop_map(|(image, memory, changes)| Rewrite { image, memory, changes })
                .boxed()
        },
        &rewrite,
    );
    ctx.sub(
        "live",
        12_000,
        "an entry was deleted, renamed, created or grown",
        &|| {
            let act = prop_oneof![
                3 => any::<usize>().prop_map(Act::Delete),
                3 => (any::<usize>(), name_strategy()).prop_map(|(n, to)| Act::Rename(n, to)),
                3 => (name_strategy(), 0u8..=3).prop_map(|(n, t)| Act::Create(n, t)),
                2 => (any::<usize>(), 0usize..1500).prop_map(|(n, l)| Act::Grow(n, l)),
            ];
            (foreign_strategy(12, 6, false), any::<bool>(), prop::collection::vec(act, 1..8))
                .prop_map(|(image, memory, acts)| Live { image, memory, acts })
                .boxed()
        },
        &live,
    );
}
