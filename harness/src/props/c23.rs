//! C23: following chains of blocks, good and bad.

use std::collections::BTreeSet;
use std::io::{self, Read};

use cbm::disk::file::{File, FileOps};
use cbm::disk::DiskError;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::foreign::{build, Foreign};
use crate::geom::{kind_strategy, Kind, Loc, ALL_KINDS};
use crate::raw::{set_bam, ChainError, Raw};
use crate::runner::{Ctx, Obs, Res};
use crate::sut::{derr, occupied, pet, show_err, write_chunks, DynDisk, Sut};
use crate::util::{content, diff, Rng};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum End {
    /// The second link byte of the last block; 0 is invalid.
    Tail(u8),
    /// Back to one of its own blocks.
    Loop(usize),
    /// To a block of another chain.
    Join(usize, usize),
    /// To a location which is not on the disk (unless it happens to be).
    Off(u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Use {
    Linear,
    Geos,
    /// Records of a VLIR file: up to three more chains follow.
    Vlir,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Chain {
    blocks: usize,
    end: End,
    usage: Use,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    kind: Kind,
    seed: u64,
    /// 0: anywhere, 1: ascending, 2: descending, 3: high tracks first, 4: directory track first
    place: u8,
    chains: Vec<Chain>,
    memory: bool,
    chunk: usize,
    append: usize,
}

fn end_strategy() -> BoxedStrategy<End> {
    prop_oneof![
        4 => any::<u8>().prop_map(End::Tail),
        2 => prop_oneof![Just(255u8), Just(254), Just(1), Just(2), Just(0)].prop_map(End::Tail),
        2 => any::<usize>().prop_map(End::Loop),
        2 => (any::<usize>(), any::<usize>()).prop_map(|(a, b)| End::Join(a, b)),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(t, s)| End::Off(t, s)),
        1 => (1u8..=81, 16u8..=41).prop_map(|(t, s)| End::Off(t, s)),
    ]
    .boxed()
}

fn case_strategy() -> BoxedStrategy<Case> {
    let blocks = prop_oneof![
        3 => 1usize..3,
        4 => 1usize..12,
        1 => 0usize..60,
        1 => prop_oneof![30 => 100usize..300, 1 => 600usize..3200],
    ];
    let chain = (blocks, end_strategy(), prop_oneof![4 => Just(Use::Linear), 1 => Just(Use::Geos), 1 => Just(Use::Vlir)])
        .prop_map(|(blocks, end, usage)| Chain { blocks, end, usage });
    (
        kind_strategy(),
        any::<u64>(),
        0u8..5,
        prop::collection::vec(chain, 1..8),
        any::<bool>(),
        prop_oneof![1usize..4, 250usize..260, 1usize..1000],
        prop_oneof![2 => Just(0usize), 2 => 1usize..300, 1 => 1usize..2000],
    )
        .prop_map(|(kind, seed, place, chains, memory, chunk, append)| Case {
            kind,
            seed,
            place,
            chains,
            memory,
            chunk,
            append,
        })
        .boxed()
}

pub fn empty(kind: Kind) -> Foreign {
    Foreign {
        kind,
        name: b"CHAINS".to_vec(),
        id: *b"C1",
        geos: false,
        extra_dir: 0,
        stale: 0,
        files: vec![],
        placement: 0,
        high: false,
        dirty: false,
        odd: 0,
        seed: 1,
    }
}

pub fn put(kind: Kind, img: &mut [u8], l: Loc, o: usize, b: &[u8]) {
    let at = kind.offset(l) + o;
    img[at..at + b.len()].copy_from_slice(b);
}

/// Write a directory entry into one of the eight slots of the first directory block.
fn entry(kind: Kind, img: &mut [u8], slot: usize, attr: u8, first: Loc, scheme: (u8, u8), size: usize) {
    let mut e = [0u8; 32];
    e[2] = attr;
    e[3] = first.0;
    e[4] = first.1;
    for x in e[5..21].iter_mut() {
        *x = 0xa0;
    }
    e[5] = b'F';
    e[6] = b'0' + slot as u8;
    e[0x17] = scheme.0;
    e[0x18] = scheme.1;
    e[0x1e] = size as u8;
    e[0x1f] = (size >> 8) as u8;
    put(kind, img, kind.first_dir(), slot * 32 + 2, &e[2..]);
}

fn name(slot: usize) -> Vec<u8> {
    vec![b'F', b'0' + slot as u8]
}

pub fn set_used(kind: Kind, img: &mut [u8], used: &BTreeSet<Loc>) {
    for t in 1..=kind.dos_tracks() {
        let mut bits = Raw::new(kind, img).bam_bits(t);
        for s in 0..kind.sectors(t) {
            if used.contains(&(t, s)) {
                bits &= !(1 << s);
            }
        }
        set_bam(kind, img, t, bits.count_ones() as u8, bits);
    }
}

pub fn want_error(e: ChainError) -> DiskError {
    match e {
        ChainError::Loop => DiskError::ChainLoop,
        ChainError::BadLocation => DiskError::InvalidLocation,
        ChainError::BadLink => DiskError::InvalidChainLink,
    }
}

fn agree<T: PartialEq + std::fmt::Debug>(
    what: &str,
    got: io::Result<T>,
    want: &Result<T, ChainError>,
    show: &dyn Fn(&T, &T) -> String,
) -> Res {
    match (got, want) {
        (Ok(ref g), Ok(w)) if g == w => Ok(()),
        (Ok(ref g), Ok(w)) => Err(format!("{}: {}", what, show(g, w))),
        (Err(ref e), Err(w)) if derr(e) == Some(want_error(*w)) => Ok(()),
        (Err(e), Err(w)) => Err(format!("{}: error {} instead of {:?}", what, show_err(&e), want_error(*w))),
        (Ok(_), Err(w)) => Err(format!("{}: succeeds although the chain is bad ({:?})", what, w)),
        (Err(e), Ok(_)) => Err(format!("{}: {}", what, show_err(&e))),
    }
}

fn read_all(f: &File, chunk: usize, seen: &mut Vec<u8>) -> io::Result<Vec<u8>> {
    let mut r = f.reader()?;
    let mut buf = vec![0u8; chunk];
    loop {
        let n = r.read(&mut buf)?;
        if n == 0 {
            return Ok(seen.clone());
        }
        seen.extend_from_slice(&buf[..n]);
        if seen.len() > 1 << 20 {
            panic!("reading does not end");
        }
    }
}

fn bytes_diff(a: &Vec<u8>, b: &Vec<u8>) -> String {
    diff(a, b)
}

fn check_file(raw: &Raw, d: &DynDisk, slot: usize, c: &Case, obs: &mut Obs) -> Res {
    let entries = raw.entries().map_err(|e| format!("{:?}", e))?;
    let e = &entries[slot];
    let f = d.open_file(&pet(&name(slot)));
    if let Use::Vlir = c.chains[slot].usage {
        let index = raw.vlir_index(e.first());
        let f = match (f, &index) {
            (Ok(f), Ok(_)) => f,
            (Err(ref e), Err(w)) if derr(e) == Some(want_error(*w)) => return Ok(()),
            (Ok(_), Err(w)) => return Err(format!("opened although the index is bad ({:?})", w)),
            (Err(e), _) => return Err(format!("open: {}", show_err(&e))),
        };
        let index = index.unwrap();
        let n = f.record_count().map_err(|e| show_err(&e))?;
        if n != index.len() {
            return Err(format!("{} records instead of {}", n, index.len()));
        }
        let mut all: Result<BTreeSet<Loc>, ()> = 
            raw.chain_locs(e.first()).map(|v| v.into_iter().collect()).map_err(|_| ());
        for (i, l) in index.iter().enumerate() {
            let want = l.map_or(Ok(vec![]), |l| raw.chain_data(l));
            agree(&format!("record {}", i), f.record(i), &want, &bytes_diff)?;
            match (l.map_or(Ok(vec![]), |l| raw.chain_locs(l)), &mut all) {
                (Ok(v), Ok(s)) => s.extend(v),
                (Err(_), a) => *a = Err(()),
                _ => (),
            }
            obs.label(if want.is_ok() { "VLIR record" } else { "bad VLIR record" });
        }
        match (occupied(&f), all) {
            (Err(_), Err(())) => (),
            (Ok(v), Ok(s)) => {
                if v.iter().copied().collect::<BTreeSet<_>>() != s {
                    return Err("occupied blocks differ".to_string());
                }
            }
            (Ok(_), Err(())) => return Err("occupied blocks listed although a record is bad".to_string()),
            (Err(e), Ok(_)) => return Err(format!("occupied blocks: {}", show_err(&e))),
        }
        return Ok(());
    }
    let f = f.map_err(|e| format!("open: {}", show_err(&e)))?;
    let (good, bad) = raw.chain_prefix(e.first());
    let prefix: Vec<u8> = good.iter().flat_map(|(_, s)| s[2..].iter().copied()).collect();
    let data = raw.chain_data(e.first());
    obs.label(match bad {
        None => "good",
        Some(ChainError::Loop) => "loop",
        Some(ChainError::BadLocation) => "off the disk",
        Some(ChainError::BadLink) => "bad link",
    });
    obs.label_if(good.iter().any(|(l, _)| !raw.kind.covered(*l)), "tracks beyond the map");
    obs.label_if(good.len() > 255, "long");
    if good.len() > 1 {
        obs.nontrivial();
    }
    let mut seen = vec![];
    agree("reading", read_all(&f, c.chunk, &mut seen), &data, &bytes_diff)?;
    if seen != prefix {
        return Err(format!("reading before the error: {}", diff(&seen, &prefix)));
    }
    let mut v = vec![];
    let r = f.reader().and_then(|r| r.take(1 << 20).read_to_end(&mut v)).map(|_| v.clone());
    if v != prefix {
        return Err(format!("reading to the end, before the error: {}", diff(&v, &prefix)));
    }
    agree("reading to the end", r, &data, &bytes_diff)?;
    agree("record 0", f.record(0), &data, &bytes_diff)?;
    // A file that is not a VLIR file is a single record.
    match f.record_count() {
        Ok(1) => (),
        r => return Err(format!("record count of a file without records: {:?}", r.map_err(|e| show_err(&e)))),
    }
    for i in [1usize, 2, 127, 256, usize::MAX] {
        if f.record(i).is_ok() {
            return Err(format!("record {} of a file with one record can be read", i));
        }
    }
    let locs = raw.chain_locs(e.first()).map(|v| v.into_iter().collect::<BTreeSet<Loc>>());
    let occ = occupied(&f).map(|v| v.into_iter().collect::<BTreeSet<Loc>>());
    agree("occupied blocks", occ, &locs, &|a, b| format!("{:?} / {:?}", a, b))?;
    if let Ok(mut l) = occupied(&f) {
        let n = l.len();
        l.sort();
        l.dedup();
        if l.len() != n {
            return Err("a block is listed as occupied twice".to_string());
        }
    }
    Ok(())
}

fn chains(c: &Case, obs: &mut Obs) -> Res {
    let kind = c.kind;
    let mut img = build(&empty(kind)).bytes;
    let mut rng = Rng::new(c.seed);
    // Every block but the header, the map and the directory can be part of a chain.
    let keep: BTreeSet<Loc> = kind.system().into_iter().chain(Some((53, 0)).filter(|_| kind.reserved_track().is_some())).collect();
    let mut pool: Vec<Loc> = kind.locations().into_iter().filter(|l| !keep.contains(l)).collect();
    rng.shuffle(&mut pool);
    match c.place {
        1 => pool.sort(),
        2 => {
            pool.sort();
            pool.reverse()
        }
        3 => pool.sort_by_key(|l| kind.covered(*l)),
        4 => pool.sort_by_key(|l| l.0 != kind.dir_track()),
        _ => (),
    }
    let mut pool = pool.into_iter();
    let nodes: Vec<Vec<Loc>> = c.chains.iter().map(|k| pool.by_ref().take(k.blocks).collect()).collect();
    let mut used = keep.clone();
    // Block contents and links.
    let link = |i: usize, end: &End| -> (u8, u8) {
        match end {
            End::Tail(n) => (0, *n),
            End::Loop(n) if !nodes[i].is_empty() => nodes[i][n % nodes[i].len()],
            End::Join(a, b) => {
                let o = &nodes[a % nodes.len()];
                if o.is_empty() {
                    (0, 100)
                } else {
                    o[b % o.len()]
                }
            }
            End::Loop(_) => (0, 100),
            End::Off(t, s) => (*t, *s),
        }
    };
    for (i, k) in c.chains.iter().enumerate() {
        for (n, l) in nodes[i].iter().enumerate() {
            let mut b = vec![0u8; 256];
            rng.fill(&mut b);
            let to = match nodes[i].get(n + 1) {
                Some(next) => *next,
                None => link(i, &k.end),
            };
            b[0] = to.0;
            b[1] = to.1;
            put(kind, &mut img, *l, 0, &b);
            used.insert(*l);
        }
    }
    for (i, k) in c.chains.iter().enumerate() {
        // A chain of no blocks is a file whose first block is what the end says.
        let first = match nodes[i].first() {
            Some(l) => *l,
            None => link(i, &k.end),
        };
        match k.usage {
            Use::Linear => entry(kind, &mut img, i, 0x82, first, (0, 0), k.blocks),
            Use::Geos => entry(kind, &mut img, i, 0x83, first, (0, 1), k.blocks),
            Use::Vlir => {
                // The first block becomes the index of the following chains.
                entry(kind, &mut img, i, 0x83, first, (1, 7), k.blocks);
                if let Some(l) = nodes[i].first() {
                    let mut b = vec![0u8; 256];
                    b[1] = 0xff;
                    for r in 0..rng.below(4) {
                        let j = (i + r) % nodes.len();
                        let to = match rng.below(6) {
                            0 => (0, 0xff),
                            1 => (1 + rng.byte() % 90, rng.byte() % 42),
                            2 if !nodes[j].is_empty() => nodes[j][rng.below(nodes[j].len())],
                            _ => nodes[j].get(1).or(nodes[j].first()).copied().unwrap_or((0, 0xff)),
                        };
                        b[2 + 2 * r] = to.0;
                        b[3 + 2 * r] = to.1;
                    }
                    put(kind, &mut img, *l, 0, &b);
                }
            }
        }
    }
    set_used(kind, &mut img, &used);
    let mut s = Sut::new(kind, &img, c.memory)?;
    {
        let raw = Raw::new(kind, &img);
        for i in 0..c.chains.len() {
            check_file(&raw, s.d(), i, c, obs).map_err(|e| format!("file {}: {}", i, e))?;
        }
    }
    let now = s.image();
    if now != img {
        return Err(format!("reading changed the image: {}", diff(&now, &img)));
    }
    // Appending and deleting.
    for i in 0..c.chains.len() {
        if !matches!(c.chains[i].usage, Use::Linear) {
            continue;
        }
        let before = s.image();
        let raw = Raw::new(kind, &before);
        let first = raw.entries().unwrap()[i].first();
        let (good, bad) = raw.chain_prefix(first);
        let f = s.d().open_file(&pet(&name(i))).map_err(|e| show_err(&e))?;
        let w = f.writer();
        match (w, bad) {
            (Ok(_), Some(e)) => return Err(format!("file {}: a writer for a bad chain ({:?})", i, e)),
            (Err(ref e), Some(b)) if derr(e) == Some(want_error(b)) => {
                let mut f = f;
                match f.delete() {
                    Err(ref e) if derr(e) == Some(want_error(b)) => (),
                    Err(e) => return Err(format!("file {}: deleting: {} for {:?}", i, show_err(&e), b)),
                    Ok(()) => return Err(format!("file {}: deleted although its chain is bad", i)),
                }
                if s.image() != before {
                    return Err(format!("file {}: the image changed", i));
                }
            }
            (Err(e), b) => return Err(format!("file {}: writer: {} ({:?})", i, show_err(&e), b)),
            (Ok(mut w), None) => {
                let (tail, part) = good[good.len() - 1];
                let room = 256 - part.len();
                let n = if kind.is_data(tail) { c.append } else { c.append.min(room) };
                let old = raw.chain_data(first).unwrap();
                let data = content(n, c.seed ^ i as u64);
                let free = raw.free_data().len();
                let r = write_chunks(&mut *w, &data, c.chunk.max(7));
                drop(w);
                if let Err(e) = r {
                    if free * 254 + room < n && derr(&e) == Some(DiskError::DiskFull) {
                        return Ok(());
                    }
                    return Err(format!("file {}: appending: {}", i, show_err(&e)));
                }
                let after = s.image();
                let raw2 = Raw::new(kind, &after);
                let new = raw2.chain_data(first).map_err(|e| format!("file {}: after appending: {:?}", i, e))?;
                let want = [&old[..], &data[..]].concat();
                if new != want {
                    return Err(format!("file {}: after appending: {}", i, diff(&new, &want)));
                }
                let locs = raw2.chain_locs(first).unwrap();
                let mut olds: Vec<Loc> = good.iter().map(|(l, _)| *l).collect();
                olds.extend(locs.iter().skip(olds.len()).cloned());
                if olds != locs {
                    return Err(format!("file {}: the chain was moved by appending", i));
                }
                obs.label_if(n > room, "extended");
                let d = s.d().open_file(&pet(&name(i))).and_then(|f| f.record(0)).map_err(|e| show_err(&e))?;
                if d != want {
                    return Err(format!("file {}: reading after appending: {}", i, diff(&d, &want)));
                }
            }
        }
    }
    s.reopen(true)?;
    let img = s.image();
    let raw = Raw::new(kind, &img);
    for i in 0..c.chains.len() {
        check_file(&raw, s.d(), i, c, obs).map_err(|e| format!("file {} afterwards: {}", i, e))?;
    }
    Ok(())
}

/// A one-block file in every place, with every kind of link.
fn single(i: &usize, obs: &mut Obs) -> Res {
    let kind = ALL_KINDS[i / 512];
    let i = i % 512;
    let mut img = build(&empty(kind)).bytes;
    let dirs: Vec<Loc> = kind.system();
    let ls: Vec<Loc> = kind.locations().into_iter().filter(|l| !dirs.contains(l)).collect();
    let mut rng = Rng::new(i as u64);
    obs.nontrivial();
    // Eight files per case.
    let mut at = vec![];
    for k in 0..8 {
        let n = i * 8 + k;
        let l = ls[n % ls.len()];
        at.push(l);
        let mut b = vec![0u8; 256];
        rng.fill(&mut b);
        b[0] = 0;
        b[1] = (n % 256) as u8;
        put(kind, &mut img, l, 0, &b);
        entry(kind, &mut img, k, 0x81, l, (0, 0), 1);
    }
    let s = Sut::memory(kind, &img);
    let c = Case {
        kind,
        seed: 0,
        place: 0,
        chains: (0..8).map(|_| Chain { blocks: 1, end: End::Tail(1), usage: Use::Linear }).collect(),
        memory: true,
        chunk: 1 + i,
        append: 0,
    };
    let raw = Raw::new(kind, &img);
    for k in 0..8 {
        check_file(&raw, s.d(), k, &c, obs).map_err(|e| format!("{:?} at {:?}: {}", kind, at[k], e))?;
    }
    Ok(())
}

/// The directory is a chain as well.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Dir {
    kind: Kind,
    blocks: usize,
    end: End,
    seed: u64,
    inside: bool,
    memory: bool,
}

fn dir_strategy() -> BoxedStrategy<Dir> {
    (kind_strategy(), 0usize..30, end_strategy(), any::<u64>(), any::<bool>(), any::<bool>())
        .prop_map(|(kind, blocks, end, seed, inside, memory)| Dir { kind, blocks, end, seed, inside, memory })
        .boxed()
}

fn directory(c: &Dir, obs: &mut Obs) -> Res {
    let kind = c.kind;
    let mut img = build(&empty(kind)).bytes;
    let mut rng = Rng::new(c.seed);
    let sys = kind.system();
    let mut pool: Vec<Loc> = kind
        .locations()
        .into_iter()
        .filter(|l| !sys.contains(l) && (!c.inside || l.0 == kind.dir_track()))
        .collect();
    rng.shuffle(&mut pool);
    let mut nodes = vec![kind.first_dir()];
    nodes.extend(pool.into_iter().take(c.blocks));
    for (i, l) in nodes.iter().enumerate() {
        let mut b = vec![0u8; 256];
        for slot in b.chunks_mut(32) {
            rng.fill(slot);
            if rng.below(3) == 0 {
                slot.iter_mut().for_each(|x| *x = 0);
            } else {
                slot[2] = [0x81, 0x82, 0x83, 0xc2, 0x01, 0x84][rng.below(6)];
                slot[5] = b'A';
            }
        }
        let to = match nodes.get(i + 1) {
            Some(n) => *n,
            None => match &c.end {
                // Directory blocks are used completely.
                End::Tail(0) => (0, 0),
                End::Tail(_) => (0, 0xff),
                End::Loop(n) | End::Join(_, n) => nodes[n % nodes.len()],
                End::Off(t, s) => (*t, *s),
            },
        };
        b[0] = to.0;
        b[1] = to.1;
        put(kind, &mut img, *l, 0, &b);
    }
    let s = Sut::new(kind, &img, c.memory)?;
    let raw = Raw::new(kind, &img);
    let want = raw.entries();
    let got = s.d().directory();
    obs.label(if want.is_ok() { "good" } else { "bad" });
    if nodes.len() > 1 {
        obs.nontrivial();
    }
    match (got, want) {
        (Ok(g), Ok(w)) => {
            let g: Vec<Vec<u8>> = g.iter().map(|e| crate::sut::plain_entry(e).name).collect();
            let w: Vec<Vec<u8>> = w.iter().map(|e| e.name()).collect();
            if g != w {
                return Err(format!("{} entries listed instead of {}", g.len(), w.len()));
            }
        }
        (Err(ref e), Err(w)) if derr(e) == Some(want_error(w)) => (),
        (Err(e), Err(w)) => return Err(format!("directory: {} instead of {:?}", show_err(&e), want_error(w))),
        (Ok(_), Err(w)) => return Err(format!("directory listed although its chain is bad ({:?})", w)),
        (Err(e), Ok(_)) => return Err(format!("directory: {}", show_err(&e))),
    }
    Ok(())
}

pub fn c23(ctx: &mut Ctx) {
    ctx.exhaustive("single", 512 * 8, "one-block files in every block, with every used length", &single);
    ctx.sub("chain", 20_000, "at least one chain of two or more blocks", &case_strategy, &chains);
    ctx.sub("directory", 10_000, "directories of two or more blocks", &dir_strategy, &directory);
}
