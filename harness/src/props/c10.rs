//! C10: validation.

use std::collections::{BTreeMap, BTreeSet};

use cbm::disk::{DiskError, ValidationError};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::foreign::{build, foreign_strategy, Body, Built, Foreign};
use crate::geom::{Kind, Loc};
use crate::raw::{ChainError, REntry, Raw, Scheme};
use crate::runner::{Ctx, Obs, Res};
use crate::sut::{show_err, Sut};
use crate::util::{diff, show_bytes};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Target {
    Own(usize),
    Other(usize, usize),
    System(usize),
    Directory,
    Border,
    Unused(usize),
    OffDisk(u8, u8),
    Zero,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Damage {
    Bit { track: u8, sector: u8, keep_count: bool },
    System { n: usize },
    FreeOwned { file: usize, block: usize },
    Link { file: usize, block: usize, to: Target },
    First { file: usize, to: Target },
    Info { file: usize, to: Target },
    Index { file: usize, record: usize, to: Target },
    Side { file: usize, side: usize, at: u8, value: u8 },
    Tail { file: usize, value: u8 },
    RecordLength { file: usize, value: u8 },
    /// A second entry for the same blocks.
    Copy { file: usize, over: usize, name: bool },
    /// Another file's name, or the one reports use for the system's own blocks.
    Name { file: usize, like: Option<usize> },
}

pub fn target_strategy() -> BoxedStrategy<Target> {
    prop_oneof![
        3 => any::<usize>().prop_map(Target::Own),
        4 => (any::<usize>(), any::<usize>()).prop_map(|(a, b)| Target::Other(a, b)),
        1 => any::<usize>().prop_map(Target::System),
        1 => Just(Target::Directory),
        1 => Just(Target::Border),
        2 => any::<usize>().prop_map(Target::Unused),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(t, s)| Target::OffDisk(t, s)),
        1 => Just(Target::Zero),
    ]
    .boxed()
}

pub fn damage_strategy() -> BoxedStrategy<Damage> {
    let f = any::<usize>;
    prop_oneof![
        4 => (1u8..=80, 0u8..40, any::<bool>())
            .prop_map(|(track, sector, keep_count)| Damage::Bit { track, sector, keep_count }),
        1 => f().prop_map(|n| Damage::System { n }),
        3 => (f(), f()).prop_map(|(file, block)| Damage::FreeOwned { file, block }),
        3 => (f(), f(), target_strategy()).prop_map(|(file, block, to)| Damage::Link { file, block, to }),
        2 => (f(), target_strategy()).prop_map(|(file, to)| Damage::First { file, to }),
        2 => (f(), target_strategy()).prop_map(|(file, to)| Damage::Info { file, to }),
        2 => (f(), 0usize..8, target_strategy()).prop_map(|(file, record, to)| Damage::Index { file, record, to }),
        2 => (f(), f(), any::<u8>(), any::<u8>()).prop_map(|(file, side, at, value)| Damage::Side { file, side, at, value }),
        1 => (f(), any::<u8>()).prop_map(|(file, value)| Damage::Tail { file, value }),
        1 => (f(), any::<u8>()).prop_map(|(file, value)| Damage::RecordLength { file, value }),
        2 => (f(), f(), any::<bool>()).prop_map(|(file, over, name)| Damage::Copy { file, over, name }),
        1 => (f(), prop::option::weighted(0.7, f())).prop_map(|(file, like)| Damage::Name { file, like }),
    ]
    .boxed()
}

fn resolve(b: &Built, me: usize, to: &Target) -> Loc {
    let kind = b.kind;
    let nth = |s: &BTreeSet<Loc>, n: usize| -> Loc {
        let v: Vec<Loc> = s.iter().copied().collect();
        v[n % v.len()]
    };
    match *to {
        Target::Own(n) => nth(&b.files[me].blocks, n),
        Target::Other(f, n) => nth(&b.files[f % b.files.len()].blocks, n),
        Target::System(n) => kind.system()[n % kind.system().len()],
        Target::Directory => *b.dir.last().unwrap(),
        Target::Border => b.border.unwrap_or(kind.first_dir()),
        Target::Unused(n) => {
            let raw = Raw::new(kind, &b.bytes);
            let free: Vec<Loc> = raw.free_data().into_iter().collect();
            if free.is_empty() {
                kind.header()
            } else {
                free[n % free.len()]
            }
        }
        Target::OffDisk(t, s) => {
            if kind.valid((t, s)) {
                (t, s | 0x40)
            } else {
                (t, s)
            }
        }
        Target::Zero => (0, 0),
    }
}

/// Apply one damage to the image; returns false if it does not apply.
pub fn damage(b: &Built, img: &mut [u8], d: &Damage) -> bool {
    let kind = b.kind;
    let n = b.files.len();
    let entry_at = |i: usize| kind.offset(b.files[i].at.0) + b.files[i].at.1;
    match d {
        Damage::Bit { track, sector, keep_count } => {
            let t = (track - 1) % kind.dos_tracks() + 1;
            let s = sector % kind.sectors(t);
            let (bits, count) = {
                let raw = Raw::new(kind, img);
                (raw.bam_bits(t) ^ 1 << s, raw.bam_count(t))
            };
            let c = if *keep_count { count } else { bits.count_ones() as u8 };
            crate::raw::set_bam(kind, img, t, c, bits);
            true
        }
        Damage::System { n } => {
            let sys = kind.system();
            let l = sys[n % sys.len()];
            set_free(kind, img, l);
            true
        }
        _ if n == 0 => false,
        Damage::FreeOwned { file, block } => {
            let v: Vec<Loc> = b.files[file % n].blocks.iter().copied().collect();
            let l = v[block % v.len()];
            if !kind.covered(l) {
                return false;
            }
            set_free(kind, img, l);
            true
        }
        Damage::Link { file, block, to } => {
            let m = &b.files[file % n];
            let chains: Vec<&Vec<Loc>> = match m.body {
                // The data chain of a relative file is not what its records are found by.
                Body::Rel { .. } => vec![&m.side],
                Body::Vlir { .. } => m.record_chains.iter().filter(|c| !c.is_empty()).collect(),
                _ => vec![&m.chain],
            };
            if chains.is_empty() {
                return false;
            }
            let c = chains[block % chains.len()];
            let l = c[(block / chains.len()) % c.len()];
            let t = resolve(b, file % n, to);
            let o = kind.offset(l);
            img[o] = t.0;
            img[o + 1] = t.1;
            true
        }
        Damage::First { file, to } => {
            let m = &b.files[file % n];
            if let Body::Rel { .. } = m.body {
                return false;
            }
            let t = resolve(b, file % n, to);
            let o = entry_at(file % n);
            img[o + 3] = t.0;
            img[o + 4] = t.1;
            true
        }
        Damage::Info { file, to } => {
            let m = &b.files[file % n];
            if let Body::Linear { .. } = m.body {
                return false;
            }
            // Also the first side sector of relative files.
            let t = resolve(b, file % n, to);
            let o = entry_at(file % n);
            img[o + 0x15] = t.0;
            img[o + 0x16] = t.1;
            true
        }
        Damage::Index { file, record, to } => {
            let m = &b.files[file % n];
            if let Body::Vlir { .. } = m.body {
                let t = resolve(b, file % n, to);
                let o = kind.offset(m.chain[0]) + 2 + 2 * record;
                img[o] = t.0;
                img[o + 1] = t.1;
                true
            } else {
                false
            }
        }
        Damage::Side { file, side, at, value } => {
            let m = &b.files[file % n];
            if m.side.is_empty() {
                return false;
            }
            let l = m.side[side % m.side.len()];
            img[kind.offset(l) + *at as usize] = *value;
            true
        }
        Damage::Tail { file, value } => {
            let m = &b.files[file % n];
            let l = match m.body {
                Body::Vlir { .. } => match m.record_chains.iter().flatten().last() {
                    Some(l) => *l,
                    None => return false,
                },
                _ => *m.chain.last().unwrap(),
            };
            img[kind.offset(l) + 1] = *value;
            true
        }
        Damage::RecordLength { file, value } => {
            if let Body::Rel { .. } = b.files[file % n].body {
                img[entry_at(file % n) + 0x17] = *value;
                true
            } else {
                false
            }
        }
        Damage::Name { file, like } => {
            let name: Vec<u8> = match like {
                Some(o) => {
                    let o = entry_at(o % n);
                    img[o + 5..o + 21].to_vec()
                }
                None => {
                    let mut v = system_name();
                    v.resize(16, 0xa0);
                    v
                }
            };
            let o = entry_at(file % n);
            img[o + 5..o + 21].copy_from_slice(&name);
            true
        }
        Damage::Copy { file, over, name } => {
            let (a, z) = (entry_at(file % n), entry_at(over % n));
            if a == z {
                return false;
            }
            let e: Vec<u8> = img[a + 2..a + 32].to_vec();
            if *name {
                img[z + 5..z + 21].copy_from_slice(&e[3..19]);
            }
            img[z + 2..z + 5].copy_from_slice(&e[..3]);
            img[z + 0x15..z + 32].copy_from_slice(&e[0x13..]);
            true
        }
    }
}

fn set_free(kind: Kind, img: &mut [u8], l: Loc) {
    let bits = Raw::new(kind, img).bam_bits(l.0) | 1 << l.1;
    crate::raw::set_bam(kind, img, l.0, bits.count_ones() as u8, bits);
}

/// A report, as plain data.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Finding {
    SystemFree(Loc),
    Unused(Loc),
    UsedFree(Loc, Vec<u8>),
    Shared(Loc, Vec<u8>, Vec<u8>),
    Scan(Vec<u8>),
}

const DOS: &[u8] = b"<system>";

fn system_name() -> Vec<u8> {
    cbm::Petscii::from_str_lossy("CBM DOS").as_bytes().to_vec()
}

/// The name by which reports refer to an entry.
fn report_name(e: &REntry) -> Vec<u8> {
    let n = e.name();
    if n == system_name() {
        DOS.to_vec()
    } else {
        n
    }
}

pub fn expected(kind: Kind, img: &[u8]) -> Result<Vec<Finding>, ChainError> {
    let raw = Raw::new(kind, img);
    let mut v = vec![];
    let sys: BTreeSet<Loc> = kind.system().into_iter().collect();
    let mut owner: BTreeMap<Loc, Vec<u8>> = sys.iter().map(|l| (*l, DOS.to_vec())).collect();
    for l in raw.dir_blocks()? {
        owner.insert(l, DOS.to_vec());
    }
    if let Some(l) = raw.geos_border() {
        owner.insert(l, DOS.to_vec());
    }
    for e in raw.entries()? {
        match raw.scan(&e) {
            None => v.push(Finding::Scan(report_name(&e))),
            Some(set) => {
                for l in set {
                    match owner.get(&l) {
                        Some(o) => v.push(Finding::Shared(l, o.clone(), report_name(&e))),
                        None => {
                            owner.insert(l, report_name(&e));
                        }
                    }
                }
            }
        }
    }
    for t in 1..=kind.dos_tracks() {
        for s in 0..kind.sectors(t) {
            let l = (t, s);
            match (raw.is_free(l), owner.get(&l)) {
                (true, Some(_)) if sys.contains(&l) => v.push(Finding::SystemFree(l)),
                (true, Some(o)) => v.push(Finding::UsedFree(l, o.clone())),
                (false, None) => v.push(Finding::Unused(l)),
                _ => {}
            }
        }
    }
    v.sort();
    Ok(v)
}

fn plain(e: &ValidationError, kind: Kind, img: &[u8]) -> Result<Finding, String> {
    let name = |p: &cbm::Petscii| -> Vec<u8> {
        if p.as_bytes() == &system_name()[..] {
            DOS.to_vec()
        } else {
            p.as_bytes().to_vec()
        }
    };
    let text = format!("{}", e);
    let mentions = |what: String| -> Result<(), String> {
        if text.contains(&what) {
            Ok(())
        } else {
            Err(format!("the report {:?} does not mention {}", text, what))
        }
    };
    let at = |l: Loc| mentions(format!("({},{})", l.0, l.1));
    let f = match e {
        ValidationError::SystemSectorNotAllocated(l) => Finding::SystemFree((l.0, l.1)),
        ValidationError::SectorMisallocated(l) => Finding::Unused((l.0, l.1)),
        ValidationError::SectorMisoccupied(l, p) => {
            mentions(format!("{:?}", p))?;
            Finding::UsedFree((l.0, l.1), name(p))
        }
        ValidationError::SectorOveroccupied(l, p, q) => {
            mentions(format!("{:?}", p))?;
            mentions(format!("{:?}", q))?;
            Finding::Shared((l.0, l.1), name(p), name(q))
        }
        ValidationError::FileScanError(why, p) => {
            mentions(format!("{:?}", p))?;
            let n = name(p);
            // For files that are one chain the reason is known.
            let raw = Raw::new(kind, img);
            let bad: Vec<_> = raw
                .entries()
                .unwrap_or_default()
                .into_iter()
                .filter(|e| report_name(e) == n && raw.scan(e).is_none())
                .collect();
            if bad.len() == 1 && bad[0].scheme() == Scheme::Linear {
                let want = match raw.chain(bad[0].first()) {
                    Err(ChainError::Loop) => DiskError::ChainLoop,
                    Err(ChainError::BadLink) => DiskError::InvalidChainLink,
                    _ => DiskError::InvalidLocation,
                };
                if *why != want {
                    return Err(format!("{:?} is reported for {}, should be {:?}", why, show_bytes(&n), want));
                }
            }
            Finding::Scan(n)
        }
        ValidationError::Unknown => return Err("an unknown error is reported".into()),
    };
    match f {
        Finding::SystemFree(l) | Finding::Unused(l) | Finding::UsedFree(l, _) | Finding::Shared(l, _, _) => at(l)?,
        Finding::Scan(_) => {}
    }
    Ok(f)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub image: Foreign,
    pub memory: bool,
    pub damage: Vec<Damage>,
}

pub fn case_strategy(max: usize, high: bool) -> BoxedStrategy<Case> {
    (
        foreign_strategy(10, 12, high),
        any::<bool>(),
        prop::collection::vec(damage_strategy(), 0..=max),
    )
        .prop_map(|(image, memory, damage)| Case { image, memory, damage })
        .boxed()
}

fn run(c: &Case, obs: &mut Obs) -> Res {
    let b = build(&c.image);
    let kind = b.kind;
    let mut img = b.bytes.clone();
    let mut applied = 0;
    for d in &c.damage {
        if damage(&b, &mut img, d) {
            applied += 1;
        }
    }
    let want = match expected(kind, &img) {
        Ok(w) => w,
        Err(_) => {
            // The directory itself was hit; C11.
            obs.label("directory-damaged");
            return Ok(());
        }
    };
    let s = Sut::new(kind, &img, c.memory)?;
    let got = s.d().validate().map_err(|e| format!("validation fails: {}", show_err(&e)))?;
    let mut found = vec![];
    for e in &got {
        found.push(plain(e, kind, &img)?);
    }
    found.sort();
    if found != want {
        let missing: Vec<&Finding> = want.iter().filter(|f| !found.contains(f)).take(3).collect();
        let extra: Vec<&Finding> = found.iter().filter(|f| !want.contains(f)).take(3).collect();
        return Err(format!(
            "{} findings instead of {}; not reported {:?}; reported wrongly {:?}",
            found.len(),
            want.len(),
            missing,
            extra
        ));
    }
    let after = s.image();
    if after != img {
        return Err(format!("validation changed the image: {}", diff(&after, &img)));
    }
    for f in &want {
        obs.label(match f {
            Finding::SystemFree(_) => "system-free",
            Finding::Unused(_) => "unused-allocated",
            Finding::UsedFree(_, ref o) if o == DOS => "directory-free",
            Finding::UsedFree(..) => "used-free",
            Finding::Shared(_, ref o, _) if o == DOS => "shared-with-system",
            Finding::Shared(..) => "shared",
            Finding::Scan(_) => "unreadable-file",
        });
    }
    obs.label_if(want.is_empty(), "clean");
    obs.label_if(
        want.iter().any(|f| match f {
            Finding::Shared(_, a, b) => a == b,
            _ => false,
        }),
        "shared-same-name",
    );
    if applied > 0 && !want.is_empty() || applied == 0 && b.files.len() > 1 {
        obs.nontrivial();
    }
    Ok(())
}

/// Images the library itself made and then damaged map bits only.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct After {
    history: crate::hist::History,
    bits: Vec<(u8, u8)>,
}

fn after(c: &After, obs: &mut Obs) -> Res {
    let x = crate::hist::run(&c.history, crate::hist::Flags::default(), obs)?;
    obs.labels.clear();
    let kind = x.sut.kind;
    let mut img = x.sut.image();
    for (t, s) in &c.bits {
        let t = (t - 1) % kind.dos_tracks() + 1;
        let s = s % kind.sectors(t);
        let bits = Raw::new(kind, &img).bam_bits(t) ^ 1 << s;
        crate::raw::set_bam(kind, &mut img, t, bits.count_ones() as u8, bits);
    }
    let want = expected(kind, &img).map_err(|e| format!("directory: {:?}", e))?;
    let s = Sut::memory(kind, &img);
    let got = s.d().validate().map_err(|e| format!("validation fails: {}", show_err(&e)))?;
    let mut found = vec![];
    for e in &got {
        found.push(plain(e, kind, &img)?);
    }
    found.sort();
    if found != want {
        return Err(format!("after a history: {:?} instead of {:?}", found, want));
    }
    if c.bits.is_empty() && !want.is_empty() {
        return Err(format!("after a history: {:?}", want));
    }
    if x.stats.mutations() > 0 {
        obs.nontrivial();
    }
    Ok(())
}

pub fn c10(ctx: &mut Ctx) {
    ctx.sub(
        "damage",
        36_000,
        "damage was done and must be reported, or an undamaged disk with several files",
        &|| case_strategy(6, true),
        &run,
    );
    ctx.sub(
        "histories",
        3_000,
        "the history changed the disk",
        &|| {
            (crate::hist::history_strategy(8), prop::collection::vec((1u8..=80, 0u8..40), 0..4))
                .prop_map(|(history, bits)| After { history, bits })
                .boxed()
        },
        &after,
    );
}
