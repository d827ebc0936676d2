//! C13: relative files.

use std::collections::BTreeSet;

use cbm::disk::file::{File, FileOps};
use cbm::disk::DiskError;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::c10::{damage, target_strategy, Damage};
use crate::foreign::{build, fspec_strategy, Body, FSpec, Foreign};
use crate::geom::{kind_strategy, Loc};
use crate::raw::{Raw, Scheme};
use crate::runner::{Ctx, Obs, Res};
use crate::sut::{derr, occupied, pet, show_err, DynDisk, Sut};
use crate::util::{diff, name_strategy, Rng};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    image: Foreign,
    memory: bool,
    damage: Vec<Damage>,
    seed: u64,
}

fn rel_strategy(max_blocks: usize) -> BoxedStrategy<FSpec> {
    let reclen = prop_oneof![
        4 => 1u8..=254,
        2 => prop::sample::select(vec![1u8, 2, 126, 127, 128, 252, 253, 254, 64]),
    ];
    // Sizes around whole blocks and around full side sectors.
    let bytes = prop_oneof![
        3 => 1usize..=(max_blocks * 254),
        2 => 1usize..=2540,
        3 => (1usize..=max_blocks, -2i64..=2).prop_map(|(b, d)| (b as i64 * 254 + d).max(1) as usize),
        2 => (1usize..=6, -300i64..=300).prop_map(move |(s, d)| {
            ((s * 120 * 254).min(max_blocks * 254) as i64 + d).max(1) as usize
        }),
    ];
    (name_strategy(), 0u8..16, reclen, bytes, any::<bool>())
        .prop_map(|(name, flags, reclen, bytes, noise)| FSpec {
            name,
            attr: flags << 4 | 4,
            body: Body::Rel {
                reclen,
                records: ((bytes + reclen as usize / 2) / reclen as usize).max(1),
            },
            border: false,
            noise,
        })
        .boxed()
}

fn image_strategy() -> BoxedStrategy<Foreign> {
    let files = prop_oneof![
        3 => prop::collection::vec(rel_strategy(30), 1..=3),
        2 => prop::collection::vec(rel_strategy(725), 1..=2),
        2 => prop::collection::vec(
            prop_oneof![2 => rel_strategy(130), 1 => fspec_strategy(5, true, true)],
            2..=5
        ),
    ];
    (
        (kind_strategy(), any::<bool>(), 0u8..2, 0u8..3),
        files,
        (0u8..6, any::<bool>(), any::<bool>(), any::<u64>()),
    )
        .prop_map(|((kind, geos, extra_dir, stale), files, (placement, high, dirty, seed))| Foreign {
            kind,
            name: b"DISK".to_vec(),
            id: [0x30, 0x31],
            geos,
            extra_dir,
            stale,
            files,
            placement,
            high,
            dirty,
            odd: (seed >> 40) as u8 & 7,
            seed,
        })
        .boxed()
}

fn damage_strategy() -> BoxedStrategy<Damage> {
    let f = any::<usize>;
    let at = prop_oneof![3 => 4u8..16, 2 => 16u8..40, 1 => 16u8..=255, 2 => 0u8..2];
    let value = prop_oneof![any::<u8>(), 0u8..40, Just(0u8)];
    prop_oneof![
        5 => (f(), f(), at, value).prop_map(|(file, side, at, value)| Damage::Side { file, side, at, value }),
        2 => (f(), any::<u8>()).prop_map(|(file, value)| Damage::Tail { file, value }),
        2 => (f(), any::<u8>()).prop_map(|(file, value)| Damage::RecordLength { file, value }),
        2 => (f(), target_strategy()).prop_map(|(file, to)| Damage::Info { file, to }),
        2 => (f(), f(), target_strategy()).prop_map(|(file, block, to)| Damage::Link { file, block, to }),
    ]
    .boxed()
}

/// Check one opened relative file; `want` gives each record, None where its block is off the disk.
fn check(
    f: &File,
    want: &dyn Fn(usize) -> Option<Vec<u8>>,
    n: usize,
    blocks: &BTreeSet<Loc>,
    seed: u64,
) -> Res {
    if !matches!(f, File::Relative(_)) {
        return Err("not opened as a relative file".to_string());
    }
    let count = f.record_count().map_err(|e| show_err(&e))?;
    if count != n {
        return Err(format!("{} records reported instead of {}", count, n));
    }
    let one = |i: usize| -> Res {
        match (f.record(i), want(i)) {
            (Ok(v), Some(w)) if v == w => Ok(()),
            (Ok(v), Some(w)) => Err(format!("record {}: {}", i, diff(&v, &w))),
            (Err(_), None) => Ok(()),
            (Ok(_), None) => Err(format!("record {} lies beyond the disk but was delivered", i)),
            (Err(e), Some(_)) => Err(format!("record {} of {}: {}", i, n, show_err(&e))),
        }
    };
    let mut rng = Rng::new(seed);
    if n <= 3000 {
        let mut order: Vec<usize> = (0..n).collect();
        rng.shuffle(&mut order);
        for i in order {
            one(i)?;
        }
    } else {
        for i in (0..300).chain(n - 300..n).chain((0..2000).map(|_| rng.below(n))) {
            one(i)?;
        }
    }
    for i in [n, n + 1, n + 2, n + 255, 2 * n, n + 65536, 1 << 40].iter() {
        match f.record(*i) {
            Ok(v) => return Err(format!("record {} of {} delivered {} bytes", i, n, v.len())),
            Err(ref e) if derr(e) == Some(DiskError::InvalidRecordIndex) => {}
            Err(e) => return Err(format!("record {} of {}: {}", i, n, show_err(&e))),
        }
    }
    match f.reader() {
        Err(ref e) if derr(e) == Some(DiskError::NonLinearFile) => {}
        Err(e) => return Err(format!("reader: {}", show_err(&e))),
        Ok(_) => return Err("linear reading is offered for a relative file".to_string()),
    }
    match f.writer() {
        Err(ref e) if derr(e) == Some(DiskError::NonLinearFile) => {}
        Err(e) => return Err(format!("writer: {}", show_err(&e))),
        Ok(_) => return Err("linear writing is offered for a relative file".to_string()),
    }
    let occ = occupied(f).map_err(|e| format!("occupied blocks: {}", show_err(&e)))?;
    let set: BTreeSet<Loc> = occ.iter().copied().collect();
    if set.len() != occ.len() {
        return Err("the occupied blocks list a block twice".to_string());
    }
    if set != *blocks {
        return Err(format!(
            "occupied blocks: {:?} missing, {:?} too many",
            blocks.difference(&set).collect::<Vec<_>>(),
            set.difference(blocks).collect::<Vec<_>>()
        ));
    }
    Ok(())
}

fn open(d: &DynDisk, name: &[u8]) -> Result<File, String> {
    d.open_file(&pet(name)).map_err(|e| show_err(&e))
}

fn intact(c: &Case, obs: &mut Obs) -> Res {
    let b = build(&c.image);
    let s = Sut::new(b.kind, &b.bytes, c.memory)?;
    for m in &b.files {
        let reclen = match m.body {
            Body::Rel { reclen, .. } => reclen as usize,
            _ => continue,
        };
        let blocks: BTreeSet<Loc> = m.chain.iter().chain(m.side.iter()).copied().collect();
        let f = open(s.d(), &m.name).map_err(|e| format!("{:?}: {}", m.name, e))?;
        check(&f, &|i| Some(m.records[i].clone()), m.records.len(), &blocks, c.seed)
            .map_err(|e| format!("{:?} (record length {}): {}", m.name, reclen, e))?;
        obs.nontrivial();
        obs.label(match m.side.len() {
            1 => "1-side-sector",
            2 | 3 => "2-3-side-sectors",
            _ => "4-6-side-sectors",
        });
        obs.label_if(254 % reclen != 0 && m.chain.len() > 1, "straddling");
        obs.label_if(reclen * m.records.len() % 254 == 0, "full-last-block");
    }
    Ok(())
}

fn broken(c: &Case, obs: &mut Obs) -> Res {
    let b = build(&c.image);
    let kind = b.kind;
    let mut img = b.bytes.clone();
    for d in &c.damage {
        damage(&b, &mut img, d);
    }
    let raw = Raw::new(kind, &img);
    let s = Sut::new(kind, &img, c.memory)?;
    let entries = s.d().directory().map_err(|e| show_err(&e))?;
    for e in raw.entries().map_err(|e| format!("{:?}", e))? {
        if e.scheme() != Scheme::Rel {
            continue;
        }
        let name = e.name();
        let le = match entries.iter().find(|l| {
            l.position.map_or(false, |p| (p.location.0, p.location.1) == e.block && p.offset as usize == e.offset)
        }) {
            Some(l) => l,
            None => return Err(format!("{:?} is not listed", name)),
        };
        let changed = img != b.bytes;
        match (s.d().open_file_from_entry(le), raw.rel_parse(&e)) {
            (Err(_), None) => {
                obs.label("rejected");
                obs.nontrivial();
            }
            (Ok(_), None) => {
                return Err(format!("{:?} has inconsistent side sectors but is accepted", name));
            }
            (Err(e), Some(_)) => {
                return Err(format!("{:?} is well formed but rejected: {}", name, show_err(&e)));
            }
            (Ok(f), Some((data, side, len))) => {
                let reclen = e.bytes[0x17] as usize;
                if changed {
                    obs.label("accepted");
                    obs.nontrivial();
                }
                let want = |i: usize| -> Option<Vec<u8>> {
                    let mut v = vec![];
                    for k in i * reclen..(i + 1) * reclen {
                        v.push(raw.sector(data[k / 254])?[2 + k % 254]);
                    }
                    Some(v)
                };
                let blocks: BTreeSet<Loc> = data.iter().chain(side.iter()).copied().collect();
                check(&f, &want, len / reclen, &blocks, c.seed)
                    .map_err(|e| format!("{:?} (record length {}): {}", name, reclen, e))?;
            }
        }
    }
    Ok(())
}

pub fn c13(ctx: &mut Ctx) {
    ctx.sub(
        "intact",
        60000,
        "well-formed relative files of record lengths 1 to 254 and up to six side sectors, scattered over disks with other files; non-trivial: at least one relative file",
        &|| {
            (image_strategy(), any::<bool>(), any::<u64>())
                .prop_map(|(image, memory, seed)| Case { image, memory, damage: vec![], seed })
                .boxed()
        },
        &intact,
    );
    ctx.sub(
        "broken",
        60000,
        "relative files with one to three changed bytes in side sectors, entry or last block; non-trivial: a file was rejected, or accepted after a change",
        &|| {
            (image_strategy(), any::<bool>(), prop::collection::vec(damage_strategy(), 1..=3), any::<u64>())
                .prop_map(|(image, memory, damage, seed)| Case { image, memory, damage, seed })
                .boxed()
        },
        &broken,
    );
}
