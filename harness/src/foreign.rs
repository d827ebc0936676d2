//! Builder of disk images as other software might have written them: every file kind, scattered
//! chains, stale directory slots, GEOS headers and border blocks, odd attribute bits.

use std::collections::BTreeSet;

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use crate::geom::{kind_strategy, Kind, Loc};
use crate::raw::set_bam;
use crate::util::{content, name_strategy, Rng};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Body {
    Linear { len: usize },
    Rel { reclen: u8, records: usize },
    GeosSeq { len: usize, info: bool, ftype: u8 },
    Vlir { records: Vec<Option<usize>>, info: bool, ftype: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FSpec {
    pub name: Vec<u8>,
    pub attr: u8,
    pub body: Body,
    pub border: bool,
    /// Fill the unused metadata bytes with noise.
    pub noise: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Foreign {
    pub kind: Kind,
    pub name: Vec<u8>,
    pub id: [u8; 2],
    pub geos: bool,
    /// Empty directory blocks beyond those needed.
    pub extra_dir: u8,
    /// Scratched slots between the files.
    pub stale: u8,
    pub files: Vec<FSpec>,
    /// 0: scattered over the whole disk, 1: ascending, 2: descending, 3: pairs; from 4 on, some
    /// blocks of files lie on the directory track.
    pub placement: u8,
    /// Use the tracks beyond the availability map of 40-track images.
    pub high: bool,
    /// Fill unused sectors with noise instead of zeros.
    pub dirty: bool,
    /// Header bytes that are not the usual ones: bit 0: DOS version, format type and padding;
    /// bit 1: the bytes no field uses; bit 2: the link to the directory.
    #[serde(default)]
    pub odd: u8,
    pub seed: u64,
}

#[derive(Clone, Debug)]
pub struct FModel {
    pub name: Vec<u8>,
    pub attr: u8,
    pub border: bool,
    pub entry: [u8; 32],
    pub at: (Loc, usize),
    pub body: Body,
    /// Linear: one record, the data.  VLIR: the records, empty where unavailable.
    pub records: Vec<Vec<u8>>,
    pub info: Option<Vec<u8>>,
    pub blocks: BTreeSet<Loc>,
    /// Data blocks in file order (linear, GEOS sequential and relative files).
    pub chain: Vec<Loc>,
    pub record_chains: Vec<Vec<Loc>>,
    pub side: Vec<Loc>,
}

#[derive(Clone)]
pub struct Built {
    pub kind: Kind,
    pub bytes: Vec<u8>,
    pub files: Vec<FModel>,
    pub border: Option<Loc>,
    pub dir: Vec<Loc>,
}

struct Builder<'a> {
    kind: Kind,
    img: &'a mut Vec<u8>,
    rng: Rng,
    pool: Vec<Loc>,
    /// Blocks of the directory track that files may use.
    spill: Vec<Loc>,
}

impl<'a> Builder<'a> {
    fn sector(&mut self, l: Loc) -> &mut [u8] {
        let o = self.kind.offset(l);
        &mut self.img[o..o + 256]
    }

    fn take(&mut self, n: usize) -> Option<Vec<Loc>> {
        if self.pool.len() < n {
            return None;
        }
        let at = self.pool.len() - n;
        let mut v = self.pool.split_off(at);
        v.reverse();
        for i in 0..n {
            if !self.spill.is_empty() && self.rng.below(3) == 0 {
                let l = self.spill.pop().unwrap();
                self.pool.insert(0, std::mem::replace(&mut v[i], l));
            }
        }
        Some(v)
    }

    /// Lay data out over the given blocks.
    fn write_chain(&mut self, blocks: &[Loc], data: &[u8]) {
        let mut noise = vec![0u8; 256];
        for (i, l) in blocks.iter().enumerate() {
            let part = &data[(i * 254).min(data.len())..((i + 1) * 254).min(data.len())];
            self.rng.fill(&mut noise);
            let n = noise.clone();
            let s = self.sector(*l);
            s.copy_from_slice(&n);
            if i + 1 < blocks.len() {
                s[0] = blocks[i + 1].0;
                s[1] = blocks[i + 1].1;
            } else {
                s[0] = 0;
                s[1] = part.len() as u8 + 1;
            }
            s[2..2 + part.len()].copy_from_slice(part);
        }
    }
}

pub fn blocks_for(len: usize) -> usize {
    ((len + 253) / 254).max(1)
}

/// An info block: text fields are NUL terminated somewhere, the rest is arbitrary.
pub fn info_block(rng: &mut Rng, attr: u8, ftype: u8, structure: u8) -> Vec<u8> {
    let mut b = vec![0u8; 256];
    rng.fill(&mut b);
    b[0] = 0;
    b[1] = 0xff;
    b[0x44] = attr;
    b[0x45] = ftype;
    b[0x46] = structure;
    for (o, n) in [(0x4dusize, 20usize), (0x61, 20), (0x75, 20), (0xa0, 96)].iter() {
        let used = rng.below(*n + 1);
        for i in 0..*n {
            b[o + i] = if i < used {
                match rng.below(8) {
                    0 => rng.byte(),
                    _ => 0x20 + rng.below(0x5f) as u8,
                }
            } else if rng.below(4) == 0 {
                rng.byte()
            } else {
                0
            };
        }
        if used < *n {
            b[o + used] = 0;
        }
    }
    b
}

pub fn build(f: &Foreign) -> Built {
    let kind = f.kind;
    let mut rng = Rng::new(f.seed);
    let mut img = vec![0u8; kind.size()];
    if f.dirty {
        rng.fill(&mut img);
    } else if kind.has_errors() {
        let n = kind.data_size();
        rng.fill(&mut img[n..]);
    }
    // System blocks start out clean.
    for l in kind.system() {
        let o = kind.offset(l);
        for b in img[o..o + 256].iter_mut() {
            *b = 0;
        }
    }

    // Data blocks in the order in which they will be handed out (from the end).
    let mut pool: Vec<Loc> = kind
        .locations()
        .into_iter()
        .filter(|l| kind.is_data(*l) || (f.high && !kind.covered(*l)))
        .collect();
    match f.placement % 4 {
        0 => rng.shuffle(&mut pool),
        1 => pool.reverse(),
        2 => {}
        _ => {
            let mut pairs: Vec<Vec<Loc>> = pool.chunks(2).map(|c| c.to_vec()).collect();
            rng.shuffle(&mut pairs);
            pool = pairs.concat();
        }
    }
    let mut dir_pool: Vec<Loc> = (0..kind.sectors(kind.dir_track()))
        .map(|s| (kind.dir_track(), s))
        .filter(|l| !kind.system().contains(l))
        .collect();
    rng.shuffle(&mut dir_pool);

    let border = if f.geos {
        // The border block is an ordinary block covered by the map.
        let i = pool.iter().rposition(|l| kind.covered(*l)).unwrap();
        Some(pool.remove(i))
    } else {
        None
    };

    let spill = if f.placement >= 4 {
        let n = 1 + rng.below(5);
        dir_pool.split_off(dir_pool.len() - n)
    } else {
        vec![]
    };
    let mut b = Builder { kind, img: &mut img, rng: rng.clone(), pool, spill };
    if let Some(l) = border {
        let s = b.sector(l);
        for x in s.iter_mut() {
            *x = 0;
        }
        s[1] = 0xff;
    }

    // Directory slots.
    let mut dir = vec![kind.first_dir()];
    {
        let s = b.sector(kind.first_dir());
        s[1] = 0xff;
    }
    let mut slot = 0usize; // next slot of the directory chain
    let mut border_slot = 0usize;
    let mut models: Vec<FModel> = vec![];
    let mut names: BTreeSet<Vec<u8>> = BTreeSet::new();
    let add_dir = |b: &mut Builder, dir: &mut Vec<Loc>, dir_pool: &mut Vec<Loc>| -> bool {
        let l = match dir_pool.pop() {
            Some(l) => l,
            None => return false,
        };
        let last = *dir.last().unwrap();
        let s = b.sector(last);
        s[0] = l.0;
        s[1] = l.1;
        let s = b.sector(l);
        for x in s.iter_mut() {
            *x = 0;
        }
        s[1] = 0xff;
        dir.push(l);
        true
    };
    let mut stale_left = f.stale as usize;

    for (fi, spec) in f.files.iter().enumerate() {
        let use_border = spec.border && border.is_some() && border_slot < 8;
        if !use_border {
            // Sometimes leave a scratched slot first.
            let skip = if stale_left > 0 && b.rng.below(3) == 0 {
                stale_left -= 1;
                1
            } else {
                0
            };
            while slot + skip >= dir.len() * 8 {
                if !add_dir(&mut b, &mut dir, &mut dir_pool) {
                    break;
                }
            }
            if slot + skip >= dir.len() * 8 {
                continue;
            }
            if skip == 1 {
                let l = dir[slot / 8];
                let o = slot % 8 * 32;
                let mut noise = [0u8; 30];
                b.rng.fill(&mut noise);
                if b.rng.below(2) == 0 {
                    // Once a GEOS file.
                    noise[0x15] &= 1;
                    noise[0x16] = noise[0x16] % 15 + 1;
                }
                let s = b.sector(l);
                s[o + 2..o + 32].copy_from_slice(&noise);
                s[o + 2] &= 0x70; // scratched
                slot += 1;
            }
        }

        let mut name = spec.name.clone();
        let mut n = 0u8;
        while names.contains(&name) || name.len() > 16 {
            name.truncate(14);
            name.push(b'0' + n / 10);
            name.push(b'0' + n % 10);
            n += 1;
        }

        let mut entry = [0u8; 32];
        let mut extra = [0u8; 9];
        if spec.noise {
            b.rng.fill(&mut extra);
        }
        let mut attr = spec.attr;
        let mut m = FModel {
            name: name.clone(),
            attr,
            border: use_border,
            entry,
            at: ((0, 0), 0),
            body: spec.body.clone(),
            records: vec![],
            info: None,
            blocks: BTreeSet::new(),
            chain: vec![],
            record_chains: vec![],
            side: vec![],
        };
        let data_seed = f.seed.wrapping_mul(31).wrapping_add(fi as u64);
        match &spec.body {
            Body::Linear { len } => {
                if attr & 0x0f == 4 {
                    attr = attr & 0xf0 | 2;
                }
                if attr & 0x8f == 0 {
                    attr |= 0x80;
                }
                // Must not look like a GEOS file.
                if attr & 7 < 4 && extra[2] <= 1 {
                    if spec.noise && b.rng.below(2) == 0 {
                        extra[2] = 2 + b.rng.below(254) as u8;
                    } else {
                        extra[2] = 0;
                        extra[3] = 0;
                    }
                }
                let blocks = match b.take(blocks_for(*len)) {
                    Some(v) => v,
                    None => continue,
                };
                let data = content(*len, data_seed);
                b.write_chain(&blocks, &data);
                m.records = vec![data];
                m.chain = blocks;
            }
            Body::GeosSeq { len, info, ftype } => {
                geos_attr(&mut attr);
                let blocks = match b.take(blocks_for(*len) + usize::from(*info)) {
                    Some(v) => v,
                    None => continue,
                };
                let (ib, blocks) = blocks.split_at(usize::from(*info));
                let data = content(*len, data_seed);
                b.write_chain(blocks, &data);
                extra[2] = 0;
                extra[3] = if *ftype == 0 { 1 } else { *ftype };
                set_info(&mut b, &mut m, &mut extra, ib.first().copied(), attr);
                m.records = vec![data];
                m.chain = blocks.to_vec();
            }
            Body::Vlir { records, info, ftype } => {
                geos_attr(&mut attr);
                let records = &records[..records.len().min(127)];
                let need: usize = records.iter().flatten().map(|l| blocks_for(*l)).sum::<usize>()
                    + 1
                    + usize::from(*info);
                let mut blocks = match b.take(need) {
                    Some(v) => v,
                    None => continue,
                };
                let index = blocks.remove(0);
                let ib = if *info { Some(blocks.remove(0)) } else { None };
                let mut index_block = vec![0u8; 256];
                index_block[1] = 0xff;
                for (i, r) in records.iter().enumerate() {
                    match r {
                        None => {
                            index_block[2 + 2 * i + 1] = 0xff;
                            m.records.push(vec![]);
                            m.record_chains.push(vec![]);
                        }
                        Some(len) => {
                            let rest = blocks.split_off(blocks_for(*len));
                            let mine = std::mem::replace(&mut blocks, rest);
                            let data = content(*len, data_seed.wrapping_add((i as u64 + 1) << 20));
                            b.write_chain(&mine, &data);
                            index_block[2 + 2 * i] = mine[0].0;
                            index_block[2 + 2 * i + 1] = mine[0].1;
                            m.records.push(data);
                            m.record_chains.push(mine);
                        }
                    }
                }
                b.sector(index).copy_from_slice(&index_block);
                extra[2] = 1;
                extra[3] = *ftype;
                set_info(&mut b, &mut m, &mut extra, ib, attr);
                m.chain = vec![index];
            }
            Body::Rel { reclen, records } => {
                attr = attr & 0xf0 | 4;
                let reclen = (*reclen).max(1);
                let total = reclen as usize * (*records).max(1);
                let nd = blocks_for(total);
                let ns = (nd + 119) / 120;
                if ns > 6 {
                    continue;
                }
                let mut blocks = match b.take(nd + ns) {
                    Some(v) => v,
                    None => continue,
                };
                // Side sectors lie between the data blocks, as the drives place them.
                let mut side = vec![];
                for i in 0..ns {
                    side.push(blocks.remove((i * 120 + 1).min(blocks.len() - 1)));
                }
                let data = content(total, data_seed);
                b.write_chain(&blocks, &data);
                for (i, l) in side.iter().enumerate() {
                    let mut s = vec![0u8; 256];
                    let part = &blocks[i * 120..((i + 1) * 120).min(nd)];
                    if i + 1 < ns {
                        s[0] = side[i + 1].0;
                        s[1] = side[i + 1].1;
                    } else {
                        s[1] = (15 + 2 * part.len()) as u8;
                    }
                    s[2] = i as u8;
                    s[3] = reclen;
                    for (j, x) in side.iter().enumerate() {
                        s[4 + 2 * j] = x.0;
                        s[5 + 2 * j] = x.1;
                    }
                    for (j, x) in part.iter().enumerate() {
                        s[16 + 2 * j] = x.0;
                        s[17 + 2 * j] = x.1;
                    }
                    b.sector(*l).copy_from_slice(&s);
                }
                extra[0] = side[0].0;
                extra[1] = side[0].1;
                extra[2] = reclen;
                m.records = data.chunks(reclen as usize).map(|c| c.to_vec()).collect();
                m.chain = blocks;
                m.side = side;
            }
        }
        names.insert(name.clone());
        m.attr = attr;
        m.blocks.extend(m.chain.iter());
        m.blocks.extend(m.side.iter());
        for c in &m.record_chains {
            m.blocks.extend(c.iter());
        }
        let info_loc = (extra[0], extra[1]);
        if m.info.is_some() {
            m.blocks.insert(info_loc);
        }
        entry[2] = attr;
        entry[3] = m.chain[0].0;
        entry[4] = m.chain[0].1;
        for i in 0..16 {
            entry[5 + i] = *name.get(i).unwrap_or(&0xa0);
        }
        entry[0x15..0x1e].copy_from_slice(&extra);
        let size = m.blocks.len();
        entry[0x1e] = size as u8;
        entry[0x1f] = (size >> 8) as u8;
        let (l, o) = if use_border {
            let s = border_slot;
            border_slot += 1;
            (border.unwrap(), s * 32)
        } else {
            let s = slot;
            slot += 1;
            (dir[s / 8], s % 8 * 32)
        };
        let sec = b.sector(l);
        sec[o + 2..o + 32].copy_from_slice(&entry[2..]);
        entry[0] = sec[o];
        entry[1] = sec[o + 1];
        m.entry = entry;
        m.at = (l, o);
        models.push(m);
    }
    for _ in 0..f.extra_dir {
        add_dir(&mut b, &mut dir, &mut dir_pool);
    }
    // The first two bytes of the first slot of a block are its link, which may have changed.
    for m in models.iter_mut() {
        let s = b.sector(m.at.0);
        m.entry[0] = s[m.at.1];
        m.entry[1] = s[m.at.1 + 1];
    }

    // Header.
    let h = kind.header_layout();
    {
        let fd = kind.first_dir();
        let s = b.sector(kind.header());
        s[0] = fd.0;
        s[1] = fd.1;
        s[h.disk_format] = h.default_type;
        if let Some(o) = h.double_sided {
            s[o] = 0x80;
        }
        for o in h.padding {
            s[*o] = 0xa0;
        }
        for i in 0..16 {
            s[h.name + i] = *f.name.get(i).unwrap_or(&0xa0);
        }
        s[h.id] = f.id[0];
        s[h.id + 1] = f.id[1];
        s[h.dos_version] = h.default_version;
        s[h.format_type] = h.default_type;
        if let Some(l) = border {
            s[0xab] = l.0;
            s[0xac] = l.1;
            s[0xad..0xad + 16].copy_from_slice(b"GEOS format V1.0");
        }
    }
    if f.odd & 1 != 0 {
        let mut at = h.padding.to_vec();
        at.extend([h.dos_version, h.format_type, h.disk_format]);
        for o in at {
            let v = b.rng.next() as u8;
            b.sector(kind.header())[o] = v;
        }
    }
    if f.odd & 2 != 0 {
        let mut at: Vec<usize> = match kind.family() {
            crate::geom::Family::F1541 => std::iter::once(3).chain(0xbd..0x100).collect(),
            crate::geom::Family::F1571 => (0xbd..0xdd).collect(),
            crate::geom::Family::F1581 => std::iter::once(3).chain(0x1d..0xab).chain(0xbd..0x100).collect(),
        };
        if border.is_none() {
            at.extend(0xab..0xbd);
        }
        for o in at {
            let v = b.rng.next() as u8;
            b.sector(kind.header())[o] = v;
        }
    }
    if f.odd & 4 != 0 {
        let v = b.rng.next();
        let s = b.sector(kind.header());
        s[0] = v as u8;
        s[1] = (v >> 8) as u8;
    }
    if kind.family() == crate::geom::Family::F1581 {
        for (i, l) in [(40u8, 1u8), (40, 2)].iter().enumerate() {
            let id = f.id;
            let s = b.sector(*l);
            s[0] = if i == 0 { 40 } else { 0 };
            s[1] = if i == 0 { 2 } else { 0xff };
            s[2] = b'D';
            s[3] = !b'D';
            s[4] = id[0];
            s[5] = id[1];
            s[6] = 0xc0;
        }
    }
    if f.odd & 2 != 0 {
        let (at, from): (&[Loc], std::ops::Range<usize>) = match kind.family() {
            crate::geom::Family::F1541 => (&[], 0..0),
            crate::geom::Family::F1571 => (&[(53, 0)], 0x69..0x100),
            crate::geom::Family::F1581 => (&[(40, 1), (40, 2)], 2..0x10),
        };
        for l in at {
            for o in from.clone() {
                let v = b.rng.next() as u8;
                b.sector(*l)[o] = v;
            }
        }
    }
    // Availability map.
    let mut used: BTreeSet<Loc> = kind.system().into_iter().collect();
    used.extend(dir.iter());
    used.extend(border.iter());
    for m in &models {
        used.extend(m.blocks.iter());
    }
    for t in 1..=kind.dos_tracks() {
        let mut bits = 0u64;
        for s in 0..kind.sectors(t) {
            if !used.contains(&(t, s)) {
                bits |= 1 << s;
            }
        }
        set_bam(kind, &mut img, t, bits.count_ones() as u8, bits);
    }
    Built { kind, bytes: img, files: models, border, dir }
}

fn geos_attr(attr: &mut u8) {
    if *attr & 7 > 3 {
        *attr = *attr & 0xf0 | 3;
    }
    if *attr & 0x8f == 0 {
        *attr |= 0x80;
    }
}

fn set_info(b: &mut Builder, m: &mut FModel, extra: &mut [u8; 9], ib: Option<Loc>, attr: u8) {
    match ib {
        Some(l) => {
            let block = info_block(&mut b.rng, attr, extra[3], extra[2]);
            b.sector(l).copy_from_slice(&block);
            extra[0] = l.0;
            extra[1] = l.1;
            m.info = Some(block);
        }
        None => {
            extra[0] = 0;
            extra[1] = 0;
        }
    }
}

pub fn attr_strategy() -> BoxedStrategy<u8> {
    prop_oneof![
        6 => (1u8..=3).prop_map(|t| 0x80 | t),
        1 => Just(0x80u8),
        2 => (1u8..=3, 0u8..8).prop_map(|(t, f)| 0x80 | t | f << 4),
        1 => (1u8..=3).prop_map(|t| t),
        1 => any::<u8>(),
    ]
    .boxed()
}

pub fn body_strategy(max_blocks: usize, geos: bool, rel: bool) -> BoxedStrategy<Body> {
    let lin = crate::util::len_strategy(max_blocks).prop_map(|len| Body::Linear { len }).boxed();
    let mut v: Vec<(u32, BoxedStrategy<Body>)> = vec![(4, lin)];
    if geos {
        let ft = prop_oneof![8 => 0u8..=15, 1 => any::<u8>()];
        v.push((
            2,
            (crate::util::len_strategy(max_blocks), prop::bool::weighted(0.8), ft.clone())
                .prop_map(|(len, info, ftype)| Body::GeosSeq { len, info, ftype })
                .boxed(),
        ));
        let rec = prop_oneof![
            2 => Just(None),
            5 => crate::util::len_strategy((max_blocks / 3).max(1)).prop_map(Some),
        ];
        let n = prop_oneof![8 => 0usize..=6, 2 => 7usize..=20, 1 => 120usize..=127];
        v.push((
            3,
            n.prop_flat_map(move |n| {
                let r = rec.clone();
                if n > 20 {
                    prop::collection::vec(
                        prop_oneof![3 => Just(None), 1 => (0usize..300).prop_map(Some)],
                        n,
                    )
                    .boxed()
                } else {
                    prop::collection::vec(r, n).boxed()
                }
            })
            .prop_flat_map(move |records| {
                (Just(records), prop::bool::weighted(0.8), 0u8..=15)
                    .prop_map(|(records, info, ftype)| Body::Vlir { records, info, ftype })
            })
            .boxed(),
        ));
    }
    if rel {
        let max = max_blocks * 254;
        v.push((
            2,
            prop_oneof![
                4 => 1u8..=254,
                2 => prop_oneof![Just(1u8), Just(127), Just(128), Just(253), Just(254), Just(64)],
            ]
            .prop_flat_map(move |reclen| {
                let cap = (max / reclen as usize).max(1);
                let whole = 254 / gcd(254, reclen as usize);
                prop_oneof![
                    3 => 1usize..=cap.min(300).max(1),
                    1 => 1usize..=cap,
                    1 => (1usize..=3).prop_map(move |k| (k * whole).min(cap).max(1)),
                ]
                .prop_map(move |records| Body::Rel { reclen, records })
            })
            .boxed(),
        ));
    }
    proptest::strategy::Union::new_weighted(v).boxed()
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

pub fn fspec_strategy(max_blocks: usize, geos: bool, rel: bool) -> BoxedStrategy<FSpec> {
    (
        name_strategy(),
        attr_strategy(),
        body_strategy(max_blocks, geos, rel),
        prop::bool::weighted(0.2),
        prop::bool::weighted(0.3),
    )
        .prop_map(|(name, attr, body, border, noise)| FSpec { name, attr, body, border, noise })
        .boxed()
}

/// Images with up to `max_files` files.
pub fn foreign_strategy(
    max_files: usize,
    max_blocks: usize,
    high: bool,
) -> BoxedStrategy<Foreign> {
    (
        (kind_strategy(), name_strategy(), any::<[u8; 2]>(), prop::bool::weighted(0.4)),
        (0u8..3, 0u8..6),
        prop_oneof![
            6 => prop::collection::vec(fspec_strategy(max_blocks, true, true), 0..=max_files),
            1 => prop::collection::vec(fspec_strategy(1, false, false), 0..=(max_files * 6).min(60)),
        ],
        (0u8..6, if high { any::<bool>().boxed() } else { Just(false).boxed() }, any::<bool>(), prop_oneof![2 => Just(0u8), 1 => 1u8..8], any::<u64>()),
    )
        .prop_map(|((kind, name, id, geos), (extra_dir, stale), files, (placement, high, dirty, odd, seed))| {
            Foreign { kind, name, id, geos, extra_dir, stale, files, placement, high, dirty, odd, seed }
        })
        .boxed()
}
