//! An independent reader of disk images: directory, chains, files, availability map and the
//! block-ownership check, working on the raw image bytes only.

use std::collections::{BTreeMap, BTreeSet};

use crate::geom::{Kind, Loc};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ChainError {
    Loop,
    BadLocation,
    BadLink,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Scheme {
    Linear,
    Rel,
    GeosSeq,
    Vlir,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct REntry {
    pub block: Loc,
    pub offset: usize,
    pub border: bool,
    pub bytes: [u8; 32],
}

impl REntry {
    pub fn attr(&self) -> u8 {
        self.bytes[2]
    }
    pub fn scratched(&self) -> bool {
        self.attr() & 0x8f == 0
    }
    pub fn first(&self) -> Loc {
        (self.bytes[3], self.bytes[4])
    }
    pub fn name(&self) -> Vec<u8> {
        crate::util::trim_name(self.bytes[5..21].to_vec())
    }
    pub fn size(&self) -> u16 {
        self.bytes[0x1e] as u16 | (self.bytes[0x1f] as u16) << 8
    }
    pub fn extra(&self) -> Loc {
        (self.bytes[0x15], self.bytes[0x16])
    }
    pub fn scheme(&self) -> Scheme {
        if self.attr() & 0x0f == 4 {
            Scheme::Rel
        } else if self.attr() & 7 < 4
            && self.bytes[0x17] <= 1
            && (self.bytes[0x17] != 0 || self.bytes[0x18] != 0)
        {
            if self.bytes[0x17] == 1 {
                Scheme::Vlir
            } else {
                Scheme::GeosSeq
            }
        } else {
            Scheme::Linear
        }
    }
}

pub struct Raw<'a> {
    pub kind: Kind,
    pub bytes: &'a [u8],
}

impl<'a> Raw<'a> {
    pub fn new(kind: Kind, bytes: &'a [u8]) -> Raw<'a> {
        assert_eq!(bytes.len(), kind.size());
        Raw { kind, bytes }
    }

    pub fn sector(&self, l: Loc) -> Option<&'a [u8]> {
        if self.kind.valid(l) {
            let o = self.kind.offset(l);
            Some(&self.bytes[o..o + 256])
        } else {
            None
        }
    }

    /// Follow a chain: (block, used part including the link bytes), or how it is bad.
    pub fn chain(&self, start: Loc) -> Result<Vec<(Loc, &'a [u8])>, ChainError> {
        let (v, e) = self.chain_prefix(start);
        match e {
            None => Ok(v),
            Some(e) => Err(e),
        }
    }

    /// As `chain`, but also returns the good part of a bad chain.
    pub fn chain_prefix(&self, start: Loc) -> (Vec<(Loc, &'a [u8])>, Option<ChainError>) {
        let mut seen = vec![false; self.kind.total_sectors()];
        let mut v = vec![];
        let mut next = start;
        loop {
            let s = match self.sector(next) {
                Some(s) => s,
                None => {
                    // A link visited before is a loop, but a bad location was never visited.
                    return (v, Some(ChainError::BadLocation));
                }
            };
            let i = self.kind.index(next);
            if seen[i] {
                return (v, Some(ChainError::Loop));
            }
            seen[i] = true;
            if s[0] == 0 {
                if s[1] == 0 {
                    return (v, Some(ChainError::BadLink));
                }
                v.push((next, &s[..s[1] as usize + 1]));
                return (v, None);
            }
            v.push((next, s));
            next = (s[0], s[1]);
        }
    }

    pub fn chain_locs(&self, start: Loc) -> Result<Vec<Loc>, ChainError> {
        Ok(self.chain(start)?.into_iter().map(|(l, _)| l).collect())
    }

    pub fn chain_data(&self, start: Loc) -> Result<Vec<u8>, ChainError> {
        let mut d = vec![];
        for (_, s) in self.chain(start)? {
            d.extend_from_slice(&s[2..]);
        }
        Ok(d)
    }

    pub fn geos_border(&self) -> Option<Loc> {
        let h = self.sector(self.kind.header()).unwrap();
        if &h[0xad..0xad + 11] == b"GEOS format" {
            Some((h[0xab], h[0xac]))
        } else {
            None
        }
    }

    pub fn dir_blocks(&self) -> Result<Vec<Loc>, ChainError> {
        self.chain_locs(self.kind.first_dir())
    }

    /// All directory slots, in order, scratched ones included; the border block last.
    pub fn slots(&self) -> Result<Vec<REntry>, ChainError> {
        let mut v = vec![];
        for (l, s) in self.chain(self.kind.first_dir())? {
            for (i, c) in s.chunks_exact(32).enumerate() {
                let mut bytes = [0u8; 32];
                bytes.copy_from_slice(c);
                v.push(REntry { block: l, offset: i * 32, border: false, bytes });
            }
        }
        if let Some(b) = self.geos_border() {
            let s = self.sector(b).ok_or(ChainError::BadLocation)?;
            for (i, c) in s.chunks_exact(32).enumerate() {
                let mut bytes = [0u8; 32];
                bytes.copy_from_slice(c);
                v.push(REntry { block: b, offset: i * 32, border: true, bytes });
            }
        }
        Ok(v)
    }

    pub fn entries(&self) -> Result<Vec<REntry>, ChainError> {
        Ok(self.slots()?.into_iter().filter(|e| !e.scratched()).collect())
    }

    pub fn vlir_index(&self, first: Loc) -> Result<Vec<Option<Loc>>, ChainError> {
        let s = self.sector(first).ok_or(ChainError::BadLocation)?;
        let mut v = vec![];
        for c in s[2..].chunks(2) {
            match (c[0], c[1]) {
                (0, 0) => break,
                (0, 0xff) => v.push(None),
                (t, s) => v.push(Some((t, s))),
            }
        }
        Ok(v)
    }

    /// The data blocks named by the side sectors, and the side sectors.
    pub fn rel_blocks(&self, e: &REntry) -> Result<(Vec<Loc>, Vec<Loc>), ChainError> {
        let mut data = vec![];
        let mut side = vec![];
        for (l, s) in self.chain(e.extra())? {
            side.push(l);
            for c in s.get(16..).unwrap_or(&[]).chunks(2) {
                if c.len() == 2 {
                    data.push((c[0], c[1]));
                }
            }
        }
        Ok((data, side))
    }

    /// Parse a relative file: data blocks, side sectors and data length, or None if its
    /// structure is inconsistent.
    pub fn rel_parse(&self, e: &REntry) -> Option<(Vec<Loc>, Vec<Loc>, usize)> {
        let side = self.chain(e.extra()).ok()?;
        if side.len() > 6 {
            return None;
        }
        let locs: Vec<Loc> = side.iter().map(|(l, _)| *l).collect();
        let mut data = vec![];
        for (_, s) in &side {
            if s.len() < 16 || s.len() % 2 != 0 {
                return None;
            }
            let list: Vec<Loc> =
                s[4..16].chunks(2).map(|c| (c[0], c[1])).filter(|l| l.0 != 0).collect();
            if list != locs {
                return None;
            }
            data.extend(s[16..].chunks(2).map(|c| (c[0], c[1])));
        }
        let reclen = e.bytes[0x17] as usize;
        let len = match data.last() {
            None => 0,
            Some(l) => {
                let s = self.sector(*l)?;
                if s[0] != 0 || s[1] == 0 {
                    return None;
                }
                (data.len() - 1) * 254 + s[1] as usize - 1
            }
        };
        if reclen == 0 || len % reclen != 0 {
            return None;
        }
        Some((data, locs, len))
    }

    /// The blocks of a file that can be followed completely; None for one that cannot.
    pub fn scan(&self, e: &REntry) -> Option<BTreeSet<Loc>> {
        let set = match e.scheme() {
            Scheme::Rel => {
                let (data, side, _) = self.rel_parse(e)?;
                data.into_iter().chain(side).collect()
            }
            _ => self.occupied(e).ok()?,
        };
        if set.iter().all(|l| self.kind.valid(*l)) {
            Some(set)
        } else {
            None
        }
    }

    /// The blocks a file occupies.
    pub fn occupied(&self, e: &REntry) -> Result<BTreeSet<Loc>, ChainError> {
        let mut set = BTreeSet::new();
        match e.scheme() {
            Scheme::Linear => set.extend(self.chain_locs(e.first())?),
            Scheme::GeosSeq => {
                set.extend(self.chain_locs(e.first())?);
                if e.extra() != (0, 0) {
                    set.insert(e.extra());
                }
            }
            Scheme::Vlir => {
                set.extend(self.chain_locs(e.first())?);
                if e.extra() != (0, 0) {
                    set.insert(e.extra());
                }
                for r in self.vlir_index(e.first())?.into_iter().flatten() {
                    set.extend(self.chain_locs(r)?);
                }
            }
            Scheme::Rel => {
                let (data, side) = self.rel_blocks(e)?;
                set.extend(data);
                set.extend(side);
            }
        }
        Ok(set)
    }

    pub fn bam_count(&self, track: u8) -> u8 {
        let ((b, o), _) = self.kind.bam_entry(track);
        self.sector(b).unwrap()[o]
    }

    pub fn bam_bits(&self, track: u8) -> u64 {
        let (_, (b, o, n)) = self.kind.bam_entry(track);
        let s = self.sector(b).unwrap();
        let mut v = 0u64;
        for i in 0..n {
            v |= (s[o + i] as u64) << (8 * i);
        }
        v
    }

    pub fn is_free(&self, l: Loc) -> bool {
        self.bam_bits(l.0) >> l.1 & 1 == 1
    }

    pub fn free_set(&self) -> BTreeSet<Loc> {
        let mut v = BTreeSet::new();
        for t in 1..=self.kind.dos_tracks() {
            for s in 0..self.kind.sectors(t) {
                if self.is_free((t, s)) {
                    v.insert((t, s));
                }
            }
        }
        v
    }

    pub fn free_data(&self) -> BTreeSet<Loc> {
        self.free_set().into_iter().filter(|l| self.kind.is_data(*l)).collect()
    }

    /// The sum of the free counts, as shown below a directory listing.
    pub fn blocks_free(&self) -> usize {
        (1..=self.kind.dos_tracks())
            .filter(|t| *t != self.kind.dir_track())
            .map(|t| self.bam_count(t) as usize)
            .sum()
    }

    pub fn error_table(&self) -> &'a [u8] {
        &self.bytes[self.kind.data_size()..]
    }

    pub fn disk_name(&self) -> &'a [u8] {
        let o = self.kind.header_layout().name;
        &self.sector(self.kind.header()).unwrap()[o..o + 16]
    }

    /// Check that each block has at most one owner and that the map says exactly that.
    pub fn consistency(&self) -> Result<(), String> {
        let kind = self.kind;
        let mut owner: BTreeMap<Loc, String> = BTreeMap::new();
        for l in kind.system() {
            owner.insert(l, "system".to_string());
        }
        let dir = self
            .dir_blocks()
            .map_err(|e| format!("the directory chain is bad: {:?}", e))?;
        for l in dir {
            if l != kind.first_dir() {
                if let Some(o) = owner.insert(l, "directory".to_string()) {
                    return Err(format!("directory block {:?} also belongs to {}", l, o));
                }
            }
        }
        if let Some(b) = self.geos_border() {
            if let Some(o) = owner.insert(b, "border".to_string()) {
                return Err(format!("border block {:?} also belongs to {}", b, o));
            }
        }
        for e in self.entries().map_err(|e| format!("directory: {:?}", e))? {
            let who = format!("file {}", crate::util::show_bytes(&e.name()));
            let occ = self
                .occupied(&e)
                .map_err(|x| format!("{} cannot be followed: {:?}", who, x))?;
            for l in occ {
                if !kind.valid(l) {
                    return Err(format!("{} uses {:?} beyond the disk", who, l));
                }
                if let Some(o) = owner.insert(l, who.clone()) {
                    return Err(format!("block {:?} belongs to {} and {}", l, o, who));
                }
            }
        }
        for t in 1..=kind.dos_tracks() {
            let bits = self.bam_bits(t);
            for s in 0..kind.sectors(t) {
                let free = bits >> s & 1 == 1;
                match (free, owner.get(&(t, s))) {
                    (true, Some(o)) => {
                        return Err(format!("block {:?} of {} is marked free", (t, s), o))
                    }
                    (false, None) => {
                        return Err(format!("block {:?} is marked used but nobody uses it", (t, s)))
                    }
                    _ => {}
                }
            }
            if bits >> kind.sectors(t) != 0 {
                return Err(format!("the map of track {} has bits beyond the last sector", t));
            }
            if bits.count_ones() != self.bam_count(t) as u32 {
                return Err(format!(
                    "track {}: free count {} but {} free blocks",
                    t,
                    self.bam_count(t),
                    bits.count_ones()
                ));
            }
        }
        Ok(())
    }
}

/// Write an availability map entry into image bytes.
pub fn set_bam(kind: Kind, img: &mut [u8], track: u8, count: u8, bits: u64) {
    let ((cb, co), (bb, bo, n)) = kind.bam_entry(track);
    img[kind.offset(cb) + co] = count;
    for i in 0..n {
        img[kind.offset(bb) + bo + i] = (bits >> (8 * i)) as u8;
    }
}
