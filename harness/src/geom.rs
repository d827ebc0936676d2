//! Independent description of the disk geometries and on-disk layouts of the 1541, 1571 and
//! 1581 (after the published format descriptions, not after the code under test).

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

pub type Loc = (u8, u8);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, PartialOrd, Ord)]
pub enum Kind {
    D64,
    D64E,
    D64X,
    D64XE,
    D71,
    D71E,
    D81,
    D81E,
}

pub const ALL_KINDS: [Kind; 8] = [
    Kind::D64,
    Kind::D64E,
    Kind::D64X,
    Kind::D64XE,
    Kind::D71,
    Kind::D71E,
    Kind::D81,
    Kind::D81E,
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Family {
    F1541,
    F1571,
    F1581,
}

impl Kind {
    pub fn family(self) -> Family {
        match self {
            Kind::D64 | Kind::D64E | Kind::D64X | Kind::D64XE => Family::F1541,
            Kind::D71 | Kind::D71E => Family::F1571,
            Kind::D81 | Kind::D81E => Family::F1581,
        }
    }
    pub fn has_errors(self) -> bool {
        matches!(self, Kind::D64E | Kind::D64XE | Kind::D71E | Kind::D81E)
    }
    pub fn extension(self) -> &'static str {
        match self.family() {
            Family::F1541 => "d64",
            Family::F1571 => "d71",
            Family::F1581 => "d81",
        }
    }
    /// Number of tracks in the image.
    pub fn tracks(self) -> u8 {
        match self {
            Kind::D64 | Kind::D64E => 35,
            Kind::D64X | Kind::D64XE => 40,
            Kind::D71 | Kind::D71E => 70,
            Kind::D81 | Kind::D81E => 80,
        }
    }
    /// Number of tracks known to the DOS (and its availability map).
    pub fn dos_tracks(self) -> u8 {
        match self.family() {
            Family::F1541 => 35,
            Family::F1571 => 70,
            Family::F1581 => 80,
        }
    }
    pub fn sectors(self, track: u8) -> u8 {
        if track < 1 || track > self.tracks() {
            return 0;
        }
        let t = match self.family() {
            Family::F1541 => track,
            Family::F1571 => {
                if track > 35 {
                    track - 35
                } else {
                    track
                }
            }
            Family::F1581 => return 40,
        };
        match t {
            1..=17 => 21,
            18..=24 => 19,
            25..=30 => 18,
            _ => 17,
        }
    }
    pub fn valid(self, l: Loc) -> bool {
        l.1 < self.sectors(l.0)
    }
    pub fn covered(self, l: Loc) -> bool {
        l.0 >= 1 && l.0 <= self.dos_tracks() && self.valid(l)
    }
    pub fn total_sectors(self) -> usize {
        (1..=self.tracks()).map(|t| self.sectors(t) as usize).sum()
    }
    pub fn index(self, l: Loc) -> usize {
        (1..l.0).map(|t| self.sectors(t) as usize).sum::<usize>() + l.1 as usize
    }
    pub fn offset(self, l: Loc) -> usize {
        self.index(l) * 256
    }
    pub fn data_size(self) -> usize {
        self.total_sectors() * 256
    }
    pub fn size(self) -> usize {
        self.data_size() + if self.has_errors() { self.total_sectors() } else { 0 }
    }
    pub fn locations(self) -> Vec<Loc> {
        let mut v = Vec::with_capacity(self.total_sectors());
        for t in 1..=self.tracks() {
            for s in 0..self.sectors(t) {
                v.push((t, s));
            }
        }
        v
    }
    pub fn dir_track(self) -> u8 {
        match self.family() {
            Family::F1581 => 40,
            _ => 18,
        }
    }
    pub fn first_dir(self) -> Loc {
        match self.family() {
            Family::F1581 => (40, 3),
            _ => (18, 1),
        }
    }
    pub fn header(self) -> Loc {
        (self.dir_track(), 0)
    }
    pub fn reserved_track(self) -> Option<u8> {
        match self.family() {
            Family::F1571 => Some(53),
            _ => None,
        }
    }
    /// Blocks that are in use on a blank disk.
    pub fn system(self) -> Vec<Loc> {
        match self.family() {
            Family::F1541 => vec![(18, 0), (18, 1)],
            Family::F1571 => {
                let mut v = vec![(18, 0), (18, 1)];
                v.extend((0..19).map(|s| (53, s)));
                v
            }
            Family::F1581 => vec![(40, 0), (40, 1), (40, 2), (40, 3)],
        }
    }
    /// Is this a block which may hold file data?
    pub fn is_data(self, l: Loc) -> bool {
        self.covered(l) && l.0 != self.dir_track() && Some(l.0) != self.reserved_track()
    }
    pub fn blank_free(self) -> usize {
        match self.family() {
            Family::F1541 => 664,
            Family::F1571 => 1328,
            Family::F1581 => 3160,
        }
    }
    pub fn interleave(self) -> u8 {
        match self.family() {
            Family::F1541 => 10,
            Family::F1571 => 6,
            Family::F1581 => 1,
        }
    }
    pub fn dir_interleave(self) -> u8 {
        match self.family() {
            Family::F1581 => 1,
            _ => 3,
        }
    }
    /// Where the map keeps the free count and the bitmap of a track:
    /// (block, offset of the count), (block, offset and length of the bitmap).
    pub fn bam_entry(self, track: u8) -> ((Loc, usize), (Loc, usize, usize)) {
        let t = track as usize;
        match self.family() {
            Family::F1541 => (((18, 0), 4 * t), ((18, 0), 4 * t + 1, 3)),
            Family::F1571 => {
                if t <= 35 {
                    (((18, 0), 4 * t), ((18, 0), 4 * t + 1, 3))
                } else {
                    (((18, 0), 0xdd + t - 36), ((53, 0), 3 * (t - 36), 3))
                }
            }
            Family::F1581 => {
                let (b, i) = if t <= 40 { ((40, 1), t - 1) } else { ((40, 2), t - 41) };
                ((b, 0x10 + 6 * i), (b, 0x11 + 6 * i, 5))
            }
        }
    }
    pub fn header_layout(self) -> HeaderLayout {
        match self.family() {
            Family::F1581 => HeaderLayout {
                name: 0x04,
                id: 0x16,
                dos_version: 0x19,
                format_type: 0x1a,
                disk_format: 0x02,
                padding: &[0x14, 0x15, 0x18, 0x1b, 0x1c],
                double_sided: None,
                default_version: b'3',
                default_type: b'D',
            },
            f => HeaderLayout {
                name: 0x90,
                id: 0xa2,
                dos_version: 0xa5,
                format_type: 0xa6,
                disk_format: 0x02,
                padding: &[0xa0, 0xa1, 0xa4, 0xa7, 0xa8, 0xa9, 0xaa],
                double_sided: if f == Family::F1571 { Some(3) } else { None },
                default_version: b'2',
                default_type: b'A',
            },
        }
    }
}

pub struct HeaderLayout {
    pub name: usize,
    pub id: usize,
    pub dos_version: usize,
    pub format_type: usize,
    pub disk_format: usize,
    pub padding: &'static [usize],
    pub double_sided: Option<usize>,
    pub default_version: u8,
    pub default_type: u8,
}

pub fn kind_strategy() -> BoxedStrategy<Kind> {
    prop_oneof![
        4 => Just(Kind::D64),
        2 => Just(Kind::D64E),
        2 => Just(Kind::D64X),
        1 => Just(Kind::D64XE),
        3 => Just(Kind::D71),
        1 => Just(Kind::D71E),
        2 => Just(Kind::D81),
        1 => Just(Kind::D81E),
    ]
    .boxed()
}
