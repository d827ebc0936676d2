//! Reference model of the "next available track and sector" algorithm (after DISK.TXT and the
//! drives' documentation), on availability maps whose counts agree with their bitmaps.

use crate::geom::{Kind, Loc};

pub struct Map {
    pub kind: Kind,
    /// Bit set = free, index 0 is track 1.
    pub bits: Vec<u64>,
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Pick {
    At(Loc),
    Full,
}

impl Map {
    fn has(&self, t: u8) -> bool {
        self.bits[t as usize - 1] != 0
    }

    fn free(&self, l: Loc) -> bool {
        self.bits[l.0 as usize - 1] >> l.1 & 1 == 1
    }

    fn usable(&self, t: u8) -> bool {
        t >= 1
            && t <= self.kind.dos_tracks()
            && t != self.kind.dir_track()
            && Some(t) != self.kind.reserved_track()
    }

    /// The first free sector of a track at or after `from`, cyclically.
    fn scan(&self, t: u8, from: u8) -> Pick {
        let n = self.kind.sectors(t);
        for i in 0..n {
            let s = (from + i) % n;
            if self.free((t, s)) {
                return Pick::At((t, s));
            }
        }
        Pick::Full
    }

    /// The first block of a new file.
    pub fn first(&self, geos: bool) -> Pick {
        if geos {
            return self.next(geos, (1, 0));
        }
        let d = self.kind.dir_track() as i32;
        for distance in 1..=(self.kind.dos_tracks() as i32) {
            for t in [d - distance, d + distance].iter() {
                if *t < 1 || *t > 255 || !self.usable(*t as u8) || !self.has(*t as u8) {
                    continue;
                }
                return self.scan(*t as u8, 0);
            }
        }
        Pick::Full
    }

    /// The block after `prev` (a data block, or a directory block).
    pub fn next(&self, geos: bool, prev: Loc) -> Pick {
        let kind = self.kind;
        let d = kind.dir_track();
        if prev.0 == d {
            if !self.has(d) {
                return Pick::Full;
            }
            let mut s = prev.1 as i32 + kind.dir_interleave() as i32;
            if geos && d >= 25 {
                s -= 1;
            }
            return self.scan(d, self.wrap(geos, d, s));
        }

        // The order in which tracks are looked at, and whether the sector starts anew there.
        let last = kind.dos_tracks();
        let mut order: Vec<(u8, bool)> = vec![];
        if geos {
            order.extend((prev.0..=last).map(|t| (t, false)));
            order.extend((1..=last).map(|t| (t, true)));
        } else if prev.0 < d {
            order.extend((1..=prev.0).rev().map(|t| (t, false)));
            order.extend((d + 1..=last).map(|t| (t, true)));
            order.extend((1..d).rev().map(|t| (t, true)));
        } else {
            order.extend((prev.0..=last).map(|t| (t, false)));
            order.extend((1..d).rev().map(|t| (t, true)));
            order.extend((d + 1..=last).map(|t| (t, true)));
        }
        let (t, anew) = match order
            .into_iter()
            .find(|(t, _)| (self.usable(*t)) && self.has(*t))
        {
            Some(x) => x,
            None => return Pick::Full,
        };
        let s = if anew {
            0
        } else if !geos {
            prev.1 as i32 + kind.interleave() as i32
        } else if t == prev.0 {
            prev.1 as i32 + kind.interleave() as i32 - if t >= 25 { 1 } else { 0 }
        } else {
            (t - prev.0) as i32 * 2 + 4 + kind.interleave() as i32
        };
        self.scan(t, self.wrap(geos, t, s))
    }

    fn wrap(&self, geos: bool, t: u8, mut s: i32) -> u8 {
        let n = self.kind.sectors(t) as i32;
        while s >= n {
            s -= n;
            if s > 0 && !geos {
                s -= 1;
            }
        }
        s as u8
    }
}
