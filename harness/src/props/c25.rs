//! C25: initializing a disk again.  C26: operations change nothing but what they concern.

use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::ops::Range;

use cbm::disk::file::{FileOps, Scheme as LScheme};
use cbm::disk::DiskError;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::foreign::{build, foreign_strategy, Body, Foreign};
use crate::geom::{Kind, Loc};
use crate::hist::{self, history_strategy, Exec, Flags, History, Op};
use crate::loc;
use crate::raw::{Raw, REntry, Scheme};
use crate::runner::{Ctx, Obs, Res};
use crate::sut::{self, derr, pet, show_err, Sut};
use crate::util::{content, name_strategy, show_bytes, Rng};

// ------------------------------------------------------------------ C25

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Create { name: Vec<u8>, len: usize },
    Append { sel: usize, len: usize },
    Rename { sel: usize, to: Vec<u8> },
    Delete { sel: usize },
    Next { from: Option<usize> },
    Validate,
    Flush,
}

fn step_strategy() -> BoxedStrategy<Step> {
    let f = any::<usize>;
    prop_oneof![
        4 => (name_strategy(), 0usize..1500).prop_map(|(name, len)| Step::Create { name, len }),
        2 => (f(), 0usize..1500).prop_map(|(sel, len)| Step::Append { sel, len }),
        2 => (f(), name_strategy()).prop_map(|(sel, to)| Step::Rename { sel, to }),
        2 => f().prop_map(|sel| Step::Delete { sel }),
        2 => prop::option::of(f()).prop_map(|from| Step::Next { from }),
        1 => Just(Step::Validate),
        1 => Just(Step::Flush),
    ]
    .boxed()
}

/// Which blocks of the other image are written over the first.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Part {
    All,
    System,
    Header,
    Directory,
    Some(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Change {
    image: Foreign,
    other: Foreign,
    part: Part,
    memory: bool,
    /// Change the disk in the session before.
    before: Vec<Step>,
    after: Vec<Step>,
}

fn change_strategy() -> BoxedStrategy<Change> {
    (
        foreign_strategy(6, 6, false),
        foreign_strategy(6, 6, false),
        prop_oneof![
            3 => Just(Part::All),
            3 => Just(Part::System),
            1 => Just(Part::Header),
            2 => Just(Part::Directory),
            1 => any::<u64>().prop_map(Part::Some),
        ],
        any::<bool>(),
        prop::collection::vec(step_strategy(), 0..=2),
        prop::collection::vec(step_strategy(), 1..=6),
    )
        .prop_map(|(image, mut other, part, memory, before, after)| {
            other.kind = image.kind;
            Change { image, other, part, memory, before, after }
        })
        .boxed()
}

/// Perform a step; what it gives as a text.
fn perform(s: &mut Sut, st: &Step) -> String {
    let kind = s.kind;
    let dir = s.d().directory().unwrap_or_default();
    let pick = |sel: usize| dir.get(sel % dir.len().max(1)).cloned();
    let show = |r: std::io::Result<()>| match r {
        Ok(()) => "success".to_string(),
        Err(e) => show_err(&e),
    };
    match st {
        Step::Create { name, len } => show((|| {
            let f = s.m().create_file(&pet(name), sut::file_type(2), LScheme::Linear)?;
            let mut w = f.writer()?;
            let r = w.write_all(&content(*len, 5));
            let fl = w.flush();
            r?;
            fl
        })()),
        Step::Append { sel, len } => match pick(*sel) {
            None => "nothing".to_string(),
            Some(e) => show((|| {
                let f = s.d().open_file_from_entry(&e)?;
                let mut w = f.writer()?;
                let r = w.write_all(&content(*len, 6));
                let fl = w.flush();
                r?;
                fl
            })()),
        },
        Step::Rename { sel, to } => match pick(*sel) {
            None => "nothing".to_string(),
            Some(e) => show(s.m().rename(&e.filename, &pet(to))),
        },
        Step::Delete { sel } => match pick(*sel) {
            None => "nothing".to_string(),
            Some(e) => show(s.d().open_file_from_entry(&e).and_then(|mut f| f.delete())),
        },
        Step::Next { from } => {
            let locs = kind.locations();
            let from = from
                .map(|n| locs[n % locs.len()])
                .filter(|l| kind.is_data(*l))
                .map(|l| loc!(s.d(), l));
            match s.d().bam().and_then(|b| b.borrow().next_free_block(from)) {
                Ok(l) => format!("{}/{}", l.0, l.1),
                Err(e) => show_err(&e),
            }
        }
        Step::Validate => match s.d().validate() {
            Ok(v) => {
                let mut v: Vec<String> = v.iter().map(|e| format!("{}", e)).collect();
                v.sort();
                v.join("; ")
            }
            Err(e) => show_err(&e),
        },
        Step::Flush => {
            let a = show(s.m().flush_header());
            let b = show(s.d().bam().and_then(|b| b.borrow_mut().flush()));
            format!("{} {}", a, b)
        }
    }
}

fn views_agree(kind: Kind, a: &Sut, b: &Sut) -> Res {
    match (sut::view(kind, a.d()), sut::view(kind, b.d())) {
        (Ok(x), Ok(y)) => match sut::view_diff(&x, &y) {
            None => Ok(()),
            Some(d) => Err(format!("after initializing / after a fresh open: {}", d)),
        },
        (Err(x), Err(y)) if x == y => Ok(()),
        (x, y) => Err(format!(
            "after initializing {}, after a fresh open {}",
            x.map_or_else(|e| e, |_| "readable".into()),
            y.map_or_else(|e| e, |_| "readable".into())
        )),
    }
}

fn overwrite(s: &mut Sut, img: &[u8], which: impl Fn(Loc) -> bool) -> Res {
    let kind = s.kind;
    for l in kind.locations() {
        if which(l) {
            let o = kind.offset(l);
            let at = loc!(s.d(), l);
            s.m().write_sector(at, &img[o..o + 256]).map_err(|e| format!("writing {:?}: {}", l, show_err(&e)))?;
        }
    }
    Ok(())
}

fn change(c: &Change, obs: &mut Obs) -> Res {
    let b = build(&c.image);
    let y = build(&c.other);
    let kind = b.kind;
    let mut s = Sut::new(kind, &b.bytes, c.memory)?;
    for st in &c.before {
        perform(&mut s, st);
    }
    let held = s.d().bam().map_err(|e| show_err(&e))?;
    let sys: BTreeSet<Loc> = kind.system().into_iter().collect();
    let part = c.part;
    overwrite(&mut s, &y.bytes, |l| match part {
        Part::All => true,
        Part::System => sys.contains(&l) && l != kind.first_dir(),
        Part::Header => l == kind.header(),
        Part::Directory => l.0 == kind.dir_track(),
        Part::Some(seed) => Rng::new(seed ^ (l.0 as u64) << 8 ^ l.1 as u64).below(2) == 0,
    })?;
    let stored = s.image();
    s.m().initialize();
    if s.image() != stored {
        return Err("initializing changed the image".to_string());
    }
    let mut fresh = Sut::new(kind, &stored, !c.memory)?;
    views_agree(kind, &s, &fresh)?;
    // The map obtained before is the map.
    let now = sut::bam_entries(kind, s.d()).map_err(|e| show_err(&e))?;
    for t in 1..=kind.dos_tracks() {
        let h = held.borrow();
        let e = h.entry(t).map_err(|e| format!("the map obtained before: {}", show_err(&e)))?;
        if (e.free_sectors, e.sector_map) != now[t as usize - 1] {
            return Err(format!("a map obtained before initializing shows the old state of track {}", t));
        }
    }
    if held.borrow().blocks_free() != fresh.d().blocks_free().map_err(|e| show_err(&e))? {
        return Err("a map obtained before initializing has another free count".to_string());
    }
    for (i, st) in c.after.iter().enumerate() {
        let a = perform(&mut s, st);
        let z = perform(&mut fresh, st);
        if a != z {
            return Err(format!("{:?} after initializing: {:?}, after a fresh open: {:?}", st, a, z));
        }
        if i == 0 {
            held.borrow_mut().flush().map_err(|e| format!("storing the map obtained before: {}", show_err(&e)))?;
            fresh.d().bam().and_then(|b| b.borrow_mut().flush()).map_err(|e| show_err(&e))?;
        }
        obs.label_if(a == "success", "step-succeeded");
    }
    let (a, z) = (s.image(), fresh.image());
    if a != z {
        let i = a.iter().zip(z.iter()).position(|(x, y)| x != y).unwrap();
        return Err(format!("the same steps give another image after initializing than after a fresh open (at {:#x})", i));
    }
    views_agree(kind, &s, &fresh)?;
    obs.label_if(c.image.geos != c.other.geos && part != Part::Directory, "geos-changes");
    if stored != b.bytes {
        obs.nontrivial();
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Held {
    image: Foreign,
    memory: bool,
    sel: usize,
    len: usize,
    /// Blocks marked allocated behind the session's back.
    marks: Vec<usize>,
    /// 0: a file handle is held, 1: a writer, 2: a writer that has written and was flushed.
    hold: u8,
    /// Make it a single-sided disk instead (1571 only).
    unformat: bool,
}

fn held_strategy() -> BoxedStrategy<Held> {
    (
        foreign_strategy(5, 5, false),
        any::<bool>(),
        any::<usize>(),
        prop_oneof![0usize..400, 300usize..4000],
        prop::collection::vec(any::<usize>(), 1..60),
        0u8..3,
        any::<bool>(),
    )
        .prop_map(|(image, memory, sel, len, marks, hold, unformat)| Held { image, memory, sel, len, marks, hold, unformat })
        .boxed()
}

fn held(c: &Held, obs: &mut Obs) -> Res {
    let b = build(&c.image);
    let kind = b.kind;
    let linear: Vec<&crate::foreign::FModel> =
        b.files.iter().filter(|m| matches!(m.body, Body::Linear { .. })).collect();
    let mut s = Sut::new(kind, &b.bytes, c.memory)?;
    let map = s.d().bam().map_err(|e| show_err(&e))?;
    let name = match linear.get(c.sel % linear.len().max(1)) {
        Some(m) => m.name.clone(),
        None => return Ok(()),
    };
    let e = |e: std::io::Error| show_err(&e);
    let file = s.d().open_file(&pet(&name)).map_err(e)?;
    let mut writer = if c.hold > 0 { Some(file.writer().map_err(e)?) } else { None };
    if c.hold == 2 {
        let w = writer.as_mut().unwrap();
        w.write_all(&content(300, 1)).map_err(e)?;
        w.flush().map_err(e)?;
    }
    let start = s.image();
    let mut img = start.clone();
    let layout = kind.header_layout();
    let unformat = c.unformat && layout.double_sided.is_some();
    if unformat {
        img[kind.offset(kind.header()) + layout.double_sided.unwrap()] = 0;
    } else {
        let locs = kind.locations();
        for m in &c.marks {
            // Also the neighbours, where the file would go next.
            for i in *m..m.saturating_add(12) {
                let l = locs[i % locs.len()];
                if kind.is_data(l) && Raw::new(kind, &img).is_free(l) {
                    let bits = Raw::new(kind, &img).bam_bits(l.0) & !(1 << l.1);
                    crate::raw::set_bam(kind, &mut img, l.0, bits.count_ones() as u8, bits);
                }
            }
        }
    }
    let sys = kind.system();
    overwrite(&mut s, &img, |l| sys.contains(&l))?;
    if s.image() != img {
        return Err("writing sectors did not store them".to_string());
    }
    s.m().initialize();
    let mut w = match writer {
        Some(w) => w,
        None => file.writer().map_err(e)?,
    };
    let data = content(c.len, 2);
    let got = (|| {
        let r = w.write_all(&data);
        let fl = w.flush();
        r?;
        fl
    })();
    drop(w);
    if unformat {
        obs.label("unformatted");
        obs.nontrivial();
        // The map is out of use.
        let refused = |r: std::io::Result<()>| matches!(&r, Err(e) if derr(e) == Some(DiskError::InvalidBAM));
        let l = loc!(s.d(), (1, 0));
        let m = &map;
        let all = refused(m.borrow().entry(1).map(|_| ()))
            && refused(m.borrow_mut().entry_mut(1).map(|_| ()))
            && refused(m.borrow_mut().allocate(l))
            && refused(m.borrow_mut().free(l))
            && refused(m.borrow().next_free_block(None).map(|_| ()))
            && refused(m.borrow_mut().flush());
        if !all {
            return Err("a map obtained before the disk lost its format is still in use".to_string());
        }
        if got.is_ok() && c.len > 254 {
            return Err("writing succeeds on a disk that is no longer formatted".to_string());
        }
        let after = s.image();
        for l in &sys {
            let o = kind.offset(*l);
            if *l != kind.first_dir() && after[o..o + 256] != img[o..o + 256] {
                return Err(format!("system block {:?} was written on a disk that is no longer formatted", l));
            }
        }
        unformatted(&mut s)?;
        s.m().write_format(&pet(b"NEW"), &sut::id(*b"01")).map_err(|e| format!("formatting: {}", show_err(&e)))?;
        if !refused(map.borrow_mut().flush()) {
            return Err("a map obtained before the disk lost its format can be stored after formatting".to_string());
        }
        if s.d().blocks_free().map_err(e)? != kind.blank_free() {
            return Err("the newly formatted disk is not blank".to_string());
        }
        return Ok(());
    }
    // The same on a fresh disk with the new map.
    let mut fresh = Sut::new(kind, &img, true)?;
    let want = (|| {
        let f = fresh.d().open_file(&pet(&name))?;
        let mut w = f.writer()?;
        let r = w.write_all(&data);
        let fl = w.flush();
        r?;
        fl
    })();
    let show = |r: &std::io::Result<()>| r.as_ref().map_or_else(|e| show_err(e), |_| "success".to_string());
    if show(&got) != show(&want) {
        return Err(format!("writing through a handle opened before: {} instead of {}", show(&got), show(&want)));
    }
    let _ = fresh.m();
    let (a, z) = (s.image(), fresh.image());
    if a != z {
        let i = a.iter().zip(z.iter()).position(|(x, y)| x != y).unwrap();
        return Err(format!(
            "a handle opened before initializing writes to {} differently than a fresh one (first at {:#x})",
            show_bytes(&name), i
        ));
    }
    if img != start && c.len > 254 {
        obs.nontrivial();
    }
    obs.label(match c.hold {
        0 => "file-handle",
        1 => "writer",
        _ => "writer-in-use",
    });
    Ok(())
}

/// Everything but raw access is refused.
fn unformatted(s: &mut Sut) -> Res {
    let before = s.image();
    let kind = s.kind;
    let n = pet(b"A");
    let mut out: Vec<(&str, std::io::Result<()>)> = vec![];
    let u = |r: std::io::Result<()>| r;
    out.push(("the directory", u(s.d().directory().map(|_| ()))));
    out.push(("the header", u(s.d().header().map(|_| ()))));
    out.push(("the map", u(s.d().bam().map(|_| ()))));
    out.push(("the free count", u(s.d().blocks_free().map(|_| ()))));
    out.push(("opening", u(s.d().open_file(&n).map(|_| ()))));
    out.push(("finding", u(s.d().find_directory_entry(&n).map(|_| ()))));
    out.push(("creating", u(s.m().create_file(&n, sut::file_type(1), LScheme::Linear).map(|_| ()))));
    out.push(("renaming", u(s.m().rename(&n, &pet(b"B")))));
    out.push(("validating", u(s.d().validate().map(|_| ()))));
    out.push(("storing the header", u(s.m().flush_header())));
    out.push(("a directory slot", u(s.m().next_free_directory_entry().map(|_| ()))));
    for (what, r) in out {
        match r {
            Ok(()) => return Err(format!("{} is available on an unformatted disk", what)),
            Err(e) if derr(&e) == Some(DiskError::Unformatted) => (),
            Err(e) => return Err(format!("{} on an unformatted disk: {}", what, show_err(&e))),
        }
    }
    if s.d().name().is_some() {
        return Err("an unformatted disk has a name".to_string());
    }
    if s.d().iter().take(5).count() != 1 {
        return Err("iterating the directory of an unformatted disk gives more than its error".to_string());
    }
    for l in [kind.header(), (1, 0)].iter() {
        let o = kind.offset(*l);
        if s.d().read_sector(loc!(s.d(), *l)).ok().as_deref() != Some(&before[o..o + 256]) {
            return Err("sectors of an unformatted disk cannot be read".to_string());
        }
    }
    if s.image() != before {
        return Err("refused operations changed an unformatted disk".to_string());
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bare {
    kind: Kind,
    memory: bool,
    mark: u8,
    noise: bool,
    seed: u64,
}

/// 1571 images without the double-sided mark.
fn bare(c: &Bare, obs: &mut Obs) -> Res {
    let kind = c.kind;
    let o = match kind.header_layout().double_sided {
        Some(o) => o,
        None => return Ok(()),
    };
    if c.mark == 0x80 {
        return Ok(());
    }
    let mut img = vec![0u8; kind.size()];
    if c.noise {
        Rng::new(c.seed).fill(&mut img);
    }
    img[kind.offset(kind.header()) + o] = c.mark;
    let mut s = Sut::new(kind, &img, c.memory)?;
    unformatted(&mut s)?;
    s.reopen(true)?;
    unformatted(&mut s)?;
    s.m().write_format(&pet(b"X"), &sut::id([0x30, 0x31])).map_err(|e| format!("formatting: {}", show_err(&e)))?;
    if s.d().blocks_free().map_err(|e| show_err(&e))? != kind.blank_free() {
        return Err("not blank after formatting".to_string());
    }
    obs.nontrivial();
    Ok(())
}

pub fn c25(ctx: &mut Ctx) {
    ctx.sub(
        "change",
        16000,
        "blocks of another disk written over a disk in use, which is then initialized, looked at and worked on, against a fresh open of the same bytes; non-trivial: the image changed",
        &change_strategy,
        &change,
    );
    ctx.sub(
        "held",
        12000,
        "file handles and writers held while the map is changed (or the format lost) and the disk initialized, then written through; non-trivial: the map changed and more than one block was written",
        &held_strategy,
        &held,
    );
    ctx.sub(
        "bare",
        600,
        "1571 images without a valid header",
        &|| {
            (
                prop::sample::select(vec![Kind::D71, Kind::D71E]),
                any::<bool>(),
                prop_oneof![Just(0u8), any::<u8>()],
                any::<bool>(),
                any::<u64>(),
            )
                .prop_map(|(kind, memory, mark, noise, seed)| Bare { kind, memory, mark, noise, seed })
                .boxed()
        },
        &bare,
    );
}

// ------------------------------------------------------------------ C26

type Allowed = BTreeMap<Loc, Vec<Range<usize>>>;

fn at(e: &REntry) -> (Loc, usize) {
    (e.block, e.offset)
}

/// Bytes of the map that describe a track.
fn map_bytes(kind: Kind, t: u8, allowed: &mut Allowed) {
    let ((cl, co), (bl, bo, n)) = kind.bam_entry(t);
    allowed.entry(cl).or_default().push(co..co + 1);
    allowed.entry(bl).or_default().push(bo..bo + n);
}

/// Compare the image before and after an operation.
pub fn frame(kind: Kind, before: &[u8], after: &[u8], op: &Op) -> Res {
    if before == after {
        return Ok(());
    }
    let n = kind.data_size();
    if before[n..] != after[n..] {
        return Err("the error table changed".to_string());
    }
    let (grow, shrink, rename) = match op {
        Op::Format { .. } => return Ok(()),
        Op::Create { .. } | Op::Write { .. } | Op::Append { .. } | Op::CreateDup { .. } | Op::Fill { .. } | Op::CreateMany { .. } => {
            (true, false, false)
        }
        Op::Delete { .. } | Op::DeleteMany { .. } => (false, true, false),
        Op::Rename { .. } | Op::RenameOnto { .. } => (false, false, true),
        Op::Missing { .. } | Op::Reopen => (false, false, false),
    };
    let (rb, ra) = (Raw::new(kind, before), Raw::new(kind, after));
    let bad = |w: &str| format!("{} cannot be read", w);
    let sb = rb.slots().map_err(|_| bad("the directory before"))?;
    let sa = ra.slots().map_err(|_| bad("the directory"))?;
    let mut allowed: Allowed = BTreeMap::new();
    let mut add = |l: Loc, r: Range<usize>| allowed.entry(l).or_default().push(r);
    let (fb, fa) = (rb.free_set(), ra.free_set());
    let given: BTreeSet<Loc> = fb.difference(&fa).copied().collect();
    let taken: BTreeSet<Loc> = fa.difference(&fb).copied().collect();
    let mut tracks: BTreeSet<u8> = BTreeSet::new();
    if grow {
        tracks.extend(given.iter().map(|l| l.0));
        for l in &given {
            add(*l, 0..256);
        }
        let db = rb.dir_blocks().map_err(|_| bad("the directory before"))?;
        let da = ra.dir_blocks().map_err(|_| bad("the directory"))?;
        if da.len() > db.len() {
            add(*db.last().unwrap(), 0..2);
        }
    }
    if shrink {
        tracks.extend(taken.iter().map(|l| l.0));
    }
    let old: BTreeMap<(Loc, usize), &REntry> = sb.iter().map(|e| (at(e), e)).collect();
    let mut changed = 0;
    for e in &sa {
        let o = match old.get(&at(e)) {
            Some(o) => o,
            None => continue, // in a new directory block
        };
        if o.bytes[2..] == e.bytes[2..] {
            // The last block of a file may be filled up without a change of its entry.
            if !(grow && !e.scratched() && e.scheme() == Scheme::Linear) {
                continue;
            }
        } else {
            changed += 1;
        }
        let (l, p) = at(e);
        match (o.scratched(), e.scratched()) {
            (true, false) if grow => add(l, p + 2..p + 32),
            (false, true) if shrink => add(l, p + 2..p + 3),
            (false, false) if rename => add(l, p + 5..p + 21),
            (false, false) if grow => {
                if matches!(op, Op::Append { .. } | Op::Write { .. } | Op::Fill { .. }) {
                    add(l, p + 0x1e..p + 0x20);
                    if let Ok(c) = rb.chain_locs(o.first()) {
                        let tail = *c.last().unwrap();
                        let used = rb.sector(tail).unwrap()[1] as usize + 1;
                        add(tail, 0..2);
                        add(tail, used.max(2)..256);
                    }
                }
            }
            _ => (),
        }
    }
    if rename && changed > 1 {
        return Err(format!("renaming changed {} directory entries", changed));
    }
    for t in tracks {
        map_bytes(kind, t, &mut allowed);
    }
    // Directory and border blocks, before and after.
    let entries: BTreeSet<Loc> = sb.iter().chain(&sa).map(|e| at(e).0).collect();
    let mut tails = BTreeSet::new();
    for l in kind.locations() {
        let o = kind.offset(l);
        let (x, y) = (&before[o..o + 256], &after[o..o + 256]);
        if x == y {
            continue;
        }
        let none = vec![];
        let a = allowed.get(&l).unwrap_or(&none);
        for i in 0..256 {
            if x[i] != y[i] && !a.iter().any(|r| r.contains(&i)) {
                let who = if fb.contains(&l) {
                    "a free block"
                } else if kind.system().contains(&l) {
                    "a system block"
                } else if !kind.covered(l) {
                    "a block beyond the map"
                } else {
                    "a block in use"
                };
                return Err(format!(
                    "byte {:#04x} of {:?} ({}) changed from {:02x} to {:02x}", i, l, who, x[i], y[i]
                ));
            }
        }
        if !given.contains(&l) && !entries.contains(&l) && !kind.system().contains(&l) {
            tails.insert(l);
        }
    }
    if tails.len() > 1 {
        return Err(format!("the blocks {:?} of several files changed", tails));
    }
    Ok(())
}

fn run_frame(h: &History, obs: &mut Obs) -> Res {
    let mut x = Exec::new(&h.start, h.memory, Flags::default())?;
    let kind = x.model.kind;
    let mut before = x.sut.image();
    for op in &h.ops {
        x.step(op)?;
        let after = x.sut.image();
        frame(kind, &before, &after, op)
            .map_err(|m| format!("{}: {}", x.log.last().cloned().unwrap_or_default(), m))?;
        obs.label_if(before != after, "changing-operation");
        before = after;
        if x.lost {
            break;
        }
    }
    obs.label_if(matches!(h.start, hist::Start::Foreign(_)), "foreign-start");
    if x.stats.mutations() > 1 {
        obs.nontrivial();
    }
    Ok(())
}

pub fn c26(ctx: &mut Ctx) {
    let rule = "the image before and after each operation of a history, byte by byte; non-trivial: at least two operations changed the disk";
    ctx.sub("history", 16000, rule, &|| history_strategy(14), &run_frame);
    ctx.sub("crowded", 3000, rule, &super::c01::crowded, &run_frame);
    ctx.sub("refusals", 5000, rule, &super::c01::refusals, &run_frame);
}
