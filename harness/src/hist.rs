//! Model-based operation histories: generation, the reference model, and the executor.

use std::collections::BTreeMap;
use std::io::Write;

use cbm::disk::file::{FileOps, Scheme as LScheme};
use cbm::disk::DiskError;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use crate::foreign::{blocks_for, build, foreign_strategy, Built, Foreign};
use crate::geom::{kind_strategy, Kind};
use crate::raw::{Raw, Scheme};
use crate::runner::{Obs, Res};
use crate::sut::{self, pet, show_err, DynDisk, Sut};
use crate::util::{content, diff, name_strategy, show_bytes, trim_name, Rng};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Start {
    Blank { kind: Kind, name: Vec<u8>, id: [u8; 2], garbage: Option<u64> },
    Foreign(Foreign),
}

impl Start {
    pub fn kind(&self) -> Kind {
        match self {
            Start::Blank { kind, .. } => *kind,
            Start::Foreign(f) => f.kind,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Create { name: Vec<u8>, ftype: u8 },
    Write { name: Vec<u8>, ftype: u8, len: usize, seed: u64, chunk: usize, how: u8 },
    Append { sel: usize, len: usize, seed: u64, chunk: usize, how: u8 },
    Rename { sel: usize, to: Vec<u8> },
    /// Rename to the name of another (or the same) file.
    RenameOnto { sel: usize, other: usize },
    CreateDup { sel: usize, ftype: u8 },
    Delete { sel: usize, by_entry: bool },
    /// Open, append to, rename and delete a name which is not there.
    Missing { name: Vec<u8>, to: Vec<u8> },
    Reopen,
    Format { name: Vec<u8>, id: [u8; 2] },
    /// Write a file that leaves only this many free data blocks.
    Fill { leave: usize, seed: u64 },
    CreateMany { n: usize },
    DeleteMany { n: usize, sel: usize },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    pub start: Start,
    pub memory: bool,
    pub ops: Vec<Op>,
}

// ------------------------------------------------------------------ generation

fn long_name() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        12 => name_strategy(),
        1 => overlong(),
        1 => padded(),
    ]
    .boxed()
}

/// Names that end in padding codes, which are not part of the name.
pub fn padded() -> BoxedStrategy<Vec<u8>> {
    (prop_oneof![2 => prop::collection::vec(0x41u8..=0x44, 0..=2), 1 => name_strategy()], 1usize..=16)
        .prop_map(|(mut n, k)| {
            n.resize((n.len() + k).min(16), 0xa0);
            n
        })
        .boxed()
}

/// Names of more than 16 codes; some would fit without the padding codes at their end.
pub fn overlong() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        2 => prop::collection::vec(0x41u8..=0x5a, 17..=24),
        1 => (prop::collection::vec(0x41u8..=0x5a, 0..=20), 17usize..=24, prop_oneof![3 => Just(0xa0u8), 1 => Just(0x20), 1 => Just(0)])
            .prop_map(|(mut n, len, pad)| {
                n.resize(len.max(n.len()), pad);
                n
            }),
    ]
    .boxed()
}

pub fn chunk_strategy() -> BoxedStrategy<usize> {
    prop_oneof![
        3 => Just(1usize << 20),
        1 => 1usize..=8,
        2 => 1usize..600,
        2 => prop_oneof![Just(253usize), Just(254), Just(255), Just(256), Just(508)],
    ]
    .boxed()
}

fn big_len() -> BoxedStrategy<usize> {
    prop_oneof![
        10 => crate::util::len_strategy(6),
        2 => crate::util::len_strategy(60),
        1 => crate::util::len_strategy(400),
    ]
    .boxed()
}

pub fn op_strategy() -> BoxedStrategy<Op> {
    prop_oneof![
        2 => (long_name(), 0u8..=3).prop_map(|(name, ftype)| Op::Create { name, ftype }),
        8 => (long_name(), 0u8..=3, big_len(), any::<u64>(), chunk_strategy(), 0u8..4).prop_map(
            |(name, ftype, len, seed, chunk, how)| Op::Write { name, ftype, len, seed, chunk, how }
        ),
        6 => (any::<usize>(), big_len(), any::<u64>(), chunk_strategy(), 0u8..4).prop_map(
            |(sel, len, seed, chunk, how)| Op::Append { sel, len, seed, chunk, how }
        ),
        4 => (any::<usize>(), long_name()).prop_map(|(sel, to)| Op::Rename { sel, to }),
        1 => (any::<usize>(), any::<usize>()).prop_map(|(sel, other)| Op::RenameOnto { sel, other }),
        1 => (any::<usize>(), 0u8..=3).prop_map(|(sel, ftype)| Op::CreateDup { sel, ftype }),
        5 => (any::<usize>(), any::<bool>()).prop_map(|(sel, by_entry)| Op::Delete { sel, by_entry }),
        1 => (prop_oneof![4 => name_strategy(), 1 => padded()], long_name()).prop_map(|(name, to)| Op::Missing { name, to }),
        2 => Just(Op::Reopen),
        1 => (long_name(), any::<[u8; 2]>()).prop_map(|(name, id)| Op::Format { name, id }),
        1 => (prop_oneof![Just(0usize), 0usize..4, 0usize..40], any::<u64>())
            .prop_map(|(leave, seed)| Op::Fill { leave, seed }),
        1 => prop_oneof![3 => 1usize..12, 1 => 100usize..310].prop_map(|n| Op::CreateMany { n }),
        1 => (1usize..12, any::<usize>()).prop_map(|(n, sel)| Op::DeleteMany { n, sel }),
    ]
    .boxed()
}

pub fn start_strategy() -> BoxedStrategy<Start> {
    prop_oneof![
        2 => (kind_strategy(), name_strategy(), any::<[u8; 2]>(), prop::option::weighted(0.3, any::<u64>()))
            .prop_map(|(kind, name, id, garbage)| Start::Blank { kind, name, id, garbage }),
        3 => foreign_strategy(8, 12, false).prop_map(Start::Foreign),
        1 => foreign_strategy(5, 130, false).prop_map(Start::Foreign),
    ]
    .boxed()
}

pub fn history_strategy(max_ops: usize) -> BoxedStrategy<History> {
    (
        start_strategy(),
        any::<bool>(),
        prop::collection::vec(op_strategy(), 1..=max_ops),
    )
        .prop_map(|(start, memory, ops)| History { start, memory, ops })
        .boxed()
}

// ------------------------------------------------------------------ model

#[derive(Clone, Debug)]
pub struct MFile {
    pub name: Vec<u8>,
    pub attr: u8,
    pub scheme: Scheme,
    pub extra: Vec<u8>,
    pub border: bool,
    pub records: Vec<Vec<u8>>,
    pub blocks: usize,
    /// How many of them lie on the directory track.
    pub spilled: usize,
}

#[derive(Clone)]
pub struct Model {
    pub kind: Kind,
    pub files: Vec<MFile>,
    pub disk_name: Vec<u8>,
    pub id: [u8; 2],
    pub geos: bool,
}

impl Model {
    pub fn blank(kind: Kind, name: &[u8], id: [u8; 2]) -> Model {
        let mut n = name.to_vec();
        n.resize(16, 0xa0);
        Model { kind, files: vec![], disk_name: n, id, geos: false }
    }

    pub fn from_built(b: &Built, f: &Foreign) -> Model {
        let mut m = Model::blank(b.kind, &f.name[..f.name.len().min(16)], f.id);
        m.geos = b.border.is_some();
        for x in &b.files {
            m.files.push(MFile {
                name: x.name.clone(),
                attr: x.attr,
                scheme: match x.body {
                    crate::foreign::Body::Linear { .. } => Scheme::Linear,
                    crate::foreign::Body::Rel { .. } => Scheme::Rel,
                    crate::foreign::Body::GeosSeq { .. } => Scheme::GeosSeq,
                    crate::foreign::Body::Vlir { .. } => Scheme::Vlir,
                },
                extra: x.entry[0x15..0x1e].to_vec(),
                border: x.border,
                records: x.records.clone(),
                blocks: x.blocks.len(),
                spilled: x.blocks.iter().filter(|l| l.0 == b.kind.dir_track()).count(),
            });
        }
        m
    }

    pub fn free_data(&self) -> usize {
        let used: usize =
            self.files.iter().map(|f| f.blocks - f.spilled).sum::<usize>() + usize::from(self.geos);
        self.kind.blank_free() - used
    }

    pub fn find(&self, name: &[u8]) -> Option<usize> {
        let name = trim_name(name.to_vec());
        self.files.iter().position(|f| f.name == name)
    }

    pub fn new_file(name: &[u8], ftype: u8) -> MFile {
        MFile {
            name: trim_name(name.to_vec()),
            attr: 0x80 | ftype,
            scheme: Scheme::Linear,
            extra: vec![0; 9],
            border: false,
            records: vec![vec![]],
            blocks: 1,
            spilled: 0,
        }
    }
}

/// Make the starting image and its model.
pub fn start(s: &Start, memory: bool) -> Result<(Sut, Model), String> {
    match s {
        Start::Blank { kind, name, id, garbage } => {
            let mut bytes = vec![0u8; kind.size()];
            if let Some(g) = garbage {
                Rng::new(*g).fill(&mut bytes);
            }
            let mut sut = Sut::new(*kind, &bytes, memory)?;
            sut.m()
                .write_format(&pet(name), &sut::id(*id))
                .map_err(|e| format!("formatting failed: {}", show_err(&e)))?;
            Ok((sut, Model::blank(*kind, name, *id)))
        }
        Start::Foreign(f) => {
            let b = build(f);
            let sut = Sut::new(f.kind, &b.bytes, memory)?;
            Ok((sut, Model::from_built(&b, f)))
        }
    }
}

// ------------------------------------------------------------------ execution

/// Which consequences a property looks at.
#[derive(Clone, Copy, Default)]
pub struct Flags {
    /// Directory and contents against the model.
    pub content: bool,
    /// Block ownership, availability map, counts.
    pub owner: bool,
    /// What the image shows when opened afresh.
    pub reopen: bool,
    /// Failed operations leave everything alone.
    pub harmless: bool,
    /// Operations succeed and fail as the model says.
    pub outcome: bool,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub created: usize,
    pub appended: usize,
    pub renamed: usize,
    pub deleted: usize,
    pub reopened: usize,
    pub formatted: usize,
    pub disk_full: usize,
    pub dir_full: usize,
    pub refused: usize,
    pub partial: usize,
    pub deleted_special: usize,
    pub dir_extended: usize,
}

impl Stats {
    pub fn report(&self, obs: &mut Obs) {
        obs.label_if(self.created > 0, "created");
        obs.label_if(self.appended > 0, "appended");
        obs.label_if(self.renamed > 0, "renamed");
        obs.label_if(self.deleted > 0, "deleted");
        obs.label_if(self.deleted_special > 0, "deleted-rel-or-geos");
        obs.label_if(self.reopened > 0, "reopened");
        obs.label_if(self.formatted > 0, "formatted");
        obs.label_if(self.disk_full > 0, "disk-full");
        obs.label_if(self.dir_full > 0, "directory-full");
        obs.label_if(self.refused > 0, "refused");
        obs.label_if(self.partial > 0, "partial-write");
        obs.label_if(self.dir_extended > 0, "directory-extended");
    }
    pub fn mutations(&self) -> usize {
        self.created + self.appended + self.renamed + self.deleted + self.formatted
    }
}

enum Expect {
    Ok,
    /// Fails with this error and nothing changes (a new directory block may remain).
    Fail(DiskError),
    /// Fails with this error after the given effect.
    Partial(DiskError),
}

pub struct Exec {
    pub sut: Sut,
    pub model: Model,
    pub flags: Flags,
    pub stats: Stats,
    /// The outcome of an operation was not the expected one: the model no longer applies.
    pub lost: bool,
    /// Record of outcomes, for comparing executions.
    pub log: Vec<String>,
    many: usize,
}

impl Exec {
    pub fn new(s: &Start, memory: bool, flags: Flags) -> Result<Exec, String> {
        let (sut, model) = start(s, memory)?;
        Ok(Exec { sut, model, flags, stats: Stats::default(), lost: false, log: vec![], many: 0 })
    }

    fn slots(&self) -> (usize, usize) {
        // Scratched slots of the directory chain, and free blocks of the directory track.
        let img = self.sut.image();
        let raw = Raw::new(self.model.kind, &img);
        let slots = raw
            .slots()
            .map(|v| v.iter().filter(|s| !s.border && s.scratched()).count())
            .unwrap_or(0);
        let kind = self.model.kind;
        let total = kind.sectors(kind.dir_track()) as usize;
        let sys = kind
            .system()
            .iter()
            .filter(|l| l.0 == kind.dir_track() && **l != kind.first_dir())
            .count();
        let dir = raw.dir_blocks().map(|v| v.len()).unwrap_or(0);
        let spilled: usize = self.model.files.iter().map(|f| f.spilled).sum();
        (slots, total - sys - dir - spilled)
    }

    fn pick(&self, sel: usize) -> Option<usize> {
        if self.model.files.is_empty() {
            None
        } else {
            Some(sel % self.model.files.len())
        }
    }

    /// Compare the outcome of an operation to the expected one.
    fn outcome(&mut self, what: &str, got: Result<(), std::io::Error>, want: Expect) -> Result<bool, String> {
        let ok = match (&got, &want) {
            (Ok(()), Expect::Ok) => true,
            (Err(e), Expect::Fail(w)) | (Err(e), Expect::Partial(w)) => {
                sut::derr(e).as_ref() == Some(w)
            }
            _ => false,
        };
        let g = match &got {
            Ok(()) => "success".to_string(),
            Err(e) => show_err(e),
        };
        self.log.push(format!("{}: {}", what, g));
        if ok {
            return Ok(true);
        }
        self.lost = true;
        if self.flags.outcome {
            let w = match want {
                Expect::Ok => "success".to_string(),
                Expect::Fail(w) | Expect::Partial(w) => format!("{:?}", w),
            };
            return Err(format!("{}: {} instead of {}", what, g, w));
        }
        Ok(false)
    }

    fn expect_create(&mut self, name: &[u8]) -> Expect {
        if name.len() > 16 {
            self.stats.refused += 1;
            return Expect::Fail(DiskError::FilenameTooLong);
        }
        if self.model.find(name).is_some() {
            self.stats.refused += 1;
            return Expect::Fail(DiskError::FileExists);
        }
        let (slots, dir_free) = self.slots();
        if slots == 0 && dir_free == 0 {
            self.stats.dir_full += 1;
            return Expect::Fail(DiskError::DiskFull);
        }
        if self.model.free_data() == 0 {
            self.stats.disk_full += 1;
            return Expect::Fail(DiskError::DiskFull);
        }
        if slots == 0 {
            self.stats.dir_extended += 1;
        }
        Expect::Ok
    }

    fn do_create(&mut self, name: &[u8], ftype: u8) -> Result<bool, String> {
        let want = self.expect_create(name);
        let ok = matches!(want, Expect::Ok);
        let got = self
            .sut
            .m()
            .create_file(&pet(name), sut::file_type(ftype), LScheme::Linear);
        let handle = got.as_ref().ok().map(|f| sut::plain_entry(f.entry()));
        let got = got.map(|_| ());
        if self.outcome(&format!("creating {}", show_bytes(name)), got, want)? && ok {
            if self.flags.content {
                // The handle describes the file as the directory does.
                let e = self.sut.d().find_directory_entry(&pet(name)).map_err(|e| show_err(&e))?;
                let listed = sut::plain_entry(&e);
                if handle.as_ref() != Some(&listed) {
                    return Err(format!("the new file's handle shows {:?}, the directory {:?}", handle, listed));
                }
            }
            self.model.files.push(Model::new_file(name, ftype));
            self.stats.created += 1;
        }
        Ok(ok)
    }

    /// Expected effect of writing `len` bytes more: how many fit.
    fn room(&self, i: usize) -> usize {
        let f = &self.model.files[i];
        let len = f.records[0].len();
        f.blocks * 254 - len + 254 * self.model.free_data()
    }

    fn do_append(&mut self, i: usize, data: &[u8], chunk: usize, how: u8) -> Result<(), String> {
        let f = self.model.files[i].clone();
        let want = match f.scheme {
            Scheme::Linear if data.len() <= self.room(i) => Expect::Ok,
            Scheme::Linear => Expect::Partial(DiskError::DiskFull),
            Scheme::GeosSeq => Expect::Fail(DiskError::ReadOnly),
            _ => Expect::Fail(DiskError::NonLinearFile),
        };
        let take = match want {
            Expect::Ok => data.len(),
            Expect::Partial(_) => self.room(i),
            _ => 0,
        };
        match want {
            Expect::Ok => self.stats.appended += 1,
            Expect::Partial(_) => self.stats.partial += 1,
            _ => self.stats.refused += 1,
        }
        let got = (|| -> std::io::Result<()> {
            let file = if how & 1 == 1 {
                let e = self.sut.d().find_directory_entry(&pet(&f.name))?;
                self.sut.d().open_file_from_entry(&e)?
            } else {
                self.sut.d().open_file(&pet(&f.name))?
            };
            let mut w = file.writer()?;
            let mut r = Ok(());
            for c in data.chunks(chunk.max(1)) {
                r = w.write_all(c);
                if r.is_err() {
                    break;
                }
            }
            if how & 2 == 0 {
                let fl = w.flush();
                r?;
                fl?;
            } else {
                drop(w); // writes what is buffered
                r?;
            }
            Ok(())
        })();
        let what = format!("appending {} bytes to {}", data.len(), show_bytes(&f.name));
        if self.outcome(&what, got, want)? && f.scheme == Scheme::Linear {
            let m = &mut self.model.files[i];
            m.records[0].extend_from_slice(&data[..take]);
            m.blocks = m.blocks.max(blocks_for(m.records[0].len()));
        }
        Ok(())
    }

    fn do_delete(&mut self, i: usize, by_entry: bool) -> Result<(), String> {
        let f = self.model.files[i].clone();
        let got = (|| -> std::io::Result<()> {
            let mut file = if by_entry {
                let e = self.sut.d().find_directory_entry(&pet(&f.name))?;
                self.sut.d().open_file_from_entry(&e)?
            } else {
                self.sut.d().open_file(&pet(&f.name))?
            };
            file.delete()
        })();
        if self.outcome(&format!("deleting {}", show_bytes(&f.name)), got, Expect::Ok)? {
            self.model.files.remove(i);
            self.stats.deleted += 1;
            if f.scheme != Scheme::Linear {
                self.stats.deleted_special += 1;
            }
        }
        Ok(())
    }

    fn do_rename(&mut self, from: &[u8], to: &[u8]) -> Result<(), String> {
        let want = if self.model.find(from).is_none() {
            Expect::Fail(DiskError::NotFound)
        } else if to.len() > 16 {
            Expect::Fail(DiskError::FilenameTooLong)
        } else if self.model.find(to).is_some() {
            Expect::Fail(DiskError::FileExists)
        } else {
            Expect::Ok
        };
        let ok = matches!(want, Expect::Ok);
        if ok {
            self.stats.renamed += 1;
        } else {
            self.stats.refused += 1;
        }
        let got = self.sut.m().rename(&pet(from), &pet(to));
        let what = format!("renaming {} to {}", show_bytes(from), show_bytes(to));
        if self.outcome(&what, got, want)? && ok {
            let i = self.model.find(from).unwrap();
            self.model.files[i].name = trim_name(to.to_vec());
        }
        Ok(())
    }

    /// Perform one operation; the model follows.
    fn apply(&mut self, op: &Op) -> Res {
        match op {
            Op::Create { name, ftype } => {
                self.do_create(name, *ftype)?;
            }
            Op::Write { name, ftype, len, seed, chunk, how } => {
                if self.do_create(name, *ftype)? && !self.lost {
                    let i = self.model.find(name).unwrap();
                    self.do_append(i, &content(*len, *seed), *chunk, *how)?;
                }
            }
            Op::Append { sel, len, seed, chunk, how } => {
                if let Some(i) = self.pick(*sel) {
                    self.do_append(i, &content(*len, *seed), *chunk, *how)?;
                }
            }
            Op::Rename { sel, to } => {
                if let Some(i) = self.pick(*sel) {
                    let from = self.model.files[i].name.clone();
                    self.do_rename(&from, to)?;
                }
            }
            Op::RenameOnto { sel, other } => {
                if let (Some(i), Some(j)) = (self.pick(*sel), self.pick(*other)) {
                    let from = self.model.files[i].name.clone();
                    let mut to = self.model.files[j].name.clone();
                    if other % 5 == 3 {
                        to.resize(16, 0xa0);
                    }
                    self.do_rename(&from, &to)?;
                }
            }
            Op::CreateDup { sel, ftype } => {
                if let Some(i) = self.pick(*sel) {
                    let mut name = self.model.files[i].name.clone();
                    if sel % 5 == 3 && name.len() < 16 {
                        name.push(0xa0);
                    }
                    self.do_create(&name, *ftype)?;
                }
            }
            Op::Delete { sel, by_entry } => {
                if let Some(i) = self.pick(*sel) {
                    self.do_delete(i, *by_entry)?;
                }
            }
            Op::Missing { name, to } => {
                if self.model.find(name).is_none() {
                    let got = self.sut.d().open_file(&pet(name)).map(|_| ());
                    let what = format!("opening {}", show_bytes(name));
                    self.outcome(&what, got, Expect::Fail(DiskError::NotFound))?;
                    self.do_rename(name, to)?;
                }
            }
            Op::Reopen => {
                self.sut.reopen(true)?;
                self.stats.reopened += 1;
            }
            Op::Format { name, id } => {
                let got = self.sut.m().write_format(&pet(name), &sut::id(*id));
                if name.len() > 16 {
                    self.stats.refused += 1;
                    self.outcome("formatting", got, Expect::Fail(DiskError::FilenameTooLong))?;
                } else {
                    self.stats.formatted += 1;
                    if self.outcome("formatting", got, Expect::Ok)? {
                        self.model = Model::blank(self.model.kind, name, *id);
                    }
                }
            }
            Op::Fill { leave, seed } => {
                let free = self.model.free_data();
                if free > *leave {
                    let name = format!("FILL{}", self.many).into_bytes();
                    self.many += 1;
                    if self.model.find(&name).is_none() && self.do_create(&name, 2)? && !self.lost {
                        let i = self.model.find(&name).unwrap();
                        let len = 254 * (self.model.free_data() + 1 - (*leave).min(self.model.free_data()));
                        self.do_append(i, &content(len, *seed), 5000, 0)?;
                    }
                }
            }
            Op::CreateMany { n } => {
                for _ in 0..*n {
                    let name = format!("M{}", self.many).into_bytes();
                    self.many += 1;
                    if self.model.find(&name).is_some() {
                        continue;
                    }
                    if !self.do_create(&name, 1)? || self.lost {
                        break;
                    }
                }
            }
            Op::DeleteMany { n, sel } => {
                for k in 0..*n {
                    if let Some(i) = self.pick(sel.wrapping_add(k * 7)) {
                        self.do_delete(i, k % 2 == 0)?;
                        if self.lost {
                            break;
                        }
                    }
                }
            }
        }
        Ok(())
    }

    /// Perform one operation and look at everything the flags ask for.
    pub fn step(&mut self, op: &Op) -> Res {
        let refused = self.stats.refused + self.stats.dir_full + self.stats.disk_full;
        let mutated = self.stats.mutations() + self.stats.partial;
        let before = if self.flags.harmless {
            Some(sut::view(self.model.kind, self.sut.d())?)
        } else {
            None
        };
        self.apply(op)?;
        if let Some(before) = before {
            // Only failures, no effect.
            if refused != self.stats.refused + self.stats.dir_full + self.stats.disk_full
                && mutated == self.stats.mutations() + self.stats.partial
            {
                let mut after = sut::view(self.model.kind, self.sut.d())?;
                // A directory block linked in for an entry that could not be made may stay.
                let d = self.model.kind.dir_track() as usize - 1;
                if after.bam[d].0.wrapping_add(1) == before.bam[d].0 {
                    after.bam[d] = before.bam[d];
                }
                if let Some(x) = sut::view_diff(&before, &after) {
                    return Err(format!(
                        "a failed operation ({}) changed the disk: {}",
                        self.log.last().cloned().unwrap_or_default(),
                        x
                    ));
                }
            }
        }
        self.check()
    }

    pub fn check(&self) -> Res {
        let r = self.check_inner();
        r.map_err(|m| format!("after {}: {}", self.log.last().cloned().unwrap_or_else(|| "start".into()), m))
    }

    fn check_inner(&self) -> Res {
        let d = self.sut.d();
        if self.flags.content && !self.lost {
            check_content(&self.model, d)?;
        }
        if self.flags.owner {
            let img = self.sut.image();
            check_owner(&Raw::new(self.model.kind, &img), d)?;
            if !self.lost {
                let free = d.blocks_free().map_err(|e| show_err(&e))?;
                if free != self.model.free_data() {
                    return Err(format!(
                        "{} blocks free are reported instead of {}",
                        free,
                        self.model.free_data()
                    ));
                }
            }
        }
        if self.flags.reopen {
            check_reopen(&self.sut, self.stats.mutations() % 2 == 0)?;
        }
        Ok(())
    }
}

/// The directory and all contents, as the library reports them, against the model.
pub fn check_content(model: &Model, d: &DynDisk) -> Res {
    let list = sut::listing(d).map_err(|e| format!("the directory cannot be read: {}", show_err(&e)))?;
    let mut by_name: BTreeMap<&[u8], &sut::LEntry> = BTreeMap::new();
    for e in &list {
        if by_name.insert(&e.name, e).is_some() {
            return Err(format!("{} is listed twice", show_bytes(&e.name)));
        }
    }
    for f in &model.files {
        let e = match by_name.remove(&f.name[..]) {
            Some(e) => e,
            None => return Err(format!("{} is not listed", show_bytes(&f.name))),
        };
        if e.attr != f.attr || e.scheme != f.scheme || e.extra != f.extra || e.border != f.border {
            return Err(format!("{} is listed as {:?} instead of {:02x} {:?} {:?} border {}",
                show_bytes(&f.name), e, f.attr, f.scheme, f.extra, f.border));
        }
        if e.size as usize != f.blocks {
            return Err(format!("{} is listed with {} blocks instead of {}", show_bytes(&f.name), e.size, f.blocks));
        }
        let file = d
            .open_file(&pet(&f.name))
            .map_err(|e| format!("{} cannot be opened: {}", show_bytes(&f.name), show_err(&e)))?;
        let got = sut::records(&file)
            .map_err(|e| format!("{} cannot be read: {}", show_bytes(&f.name), show_err(&e)))?;
        if got.len() != f.records.len() {
            return Err(format!("{} has {} records instead of {}", show_bytes(&f.name), got.len(), f.records.len()));
        }
        for (i, (g, w)) in got.iter().zip(f.records.iter()).enumerate() {
            if g != w {
                return Err(format!("{} record {}: {}", show_bytes(&f.name), i, diff(g, w)));
            }
        }
        if matches!(f.scheme, Scheme::Linear | Scheme::GeosSeq) {
            let got = sut::read_file(d, &f.name)
                .map_err(|e| format!("{} cannot be read: {}", show_bytes(&f.name), show_err(&e)))?;
            if got != f.records[0] {
                return Err(format!("reading {}: {}", show_bytes(&f.name), diff(&got, &f.records[0])));
            }
        }
    }
    if let Some((n, _)) = by_name.iter().next() {
        return Err(format!("{} is listed but does not exist", show_bytes(n)));
    }
    let name = d.name().map(|n| n.as_bytes().to_vec()).unwrap_or_default();
    if crate::util::trim_name(name.clone()) != crate::util::trim_name(model.disk_name.clone()) {
        return Err(format!("disk name {} instead of {}", show_bytes(&name), show_bytes(&model.disk_name)));
    }
    Ok(())
}

/// Ownership and counts: the image itself, and what the library says about it.
pub fn check_owner(raw: &Raw, d: &DynDisk) -> Res {
    raw.consistency()?;
    let kind = raw.kind;
    let bam = sut::bam_entries(kind, d).map_err(|e| show_err(&e))?;
    for (i, (n, bits)) in bam.iter().enumerate() {
        let t = i as u8 + 1;
        if *n != raw.bam_count(t) || *bits != raw.bam_bits(t) {
            return Err(format!(
                "the map in use for track {} ({} {:x}) is not the one on the disk ({} {:x})",
                t, n, bits, raw.bam_count(t), raw.bam_bits(t)
            ));
        }
    }
    let free = d.blocks_free().map_err(|e| show_err(&e))?;
    if free != raw.free_data().len() {
        return Err(format!("{} blocks free are reported, {} are free", free, raw.free_data().len()));
    }
    let entries = raw.entries().map_err(|e| format!("{:?}", e))?;
    for e in d.directory().map_err(|e| show_err(&e))? {
        let p = sut::plain_entry(&e);
        let re = entries
            .iter()
            .find(|r| p.position == Some((r.block, r.offset as u8, 32)))
            .ok_or_else(|| format!("{} is listed but not on the disk", show_bytes(&p.name)))?;
        let want: Vec<_> = raw.occupied(re).map_err(|e| format!("{:?}", e))?.into_iter().collect();
        let f = d.open_file_from_entry(&e).map_err(|e| show_err(&e))?;
        let mut got = sut::occupied(&f).map_err(|e| show_err(&e))?;
        got.sort();
        if got != want {
            return Err(format!(
                "{} is said to occupy {:?} instead of {:?}", show_bytes(&p.name), got, want
            ));
        }
        if p.size as usize != want.len() {
            return Err(format!(
                "{} is listed with {} blocks but occupies {}", show_bytes(&p.name), p.size, want.len()
            ));
        }
    }
    Ok(())
}

/// A fresh session on the same image reports the same as this one.
pub fn check_reopen(sut: &Sut, read_only: bool) -> Res {
    let here = sut::view(sut.kind, sut.d())?;
    let img = sut.image();
    let fresh = match sut.path {
        Some(ref p) => sut::unmetered(|| cbm::disk::open(p, !read_only))
            .map_err(|e| format!("cannot re-open: {}", show_err(&e)))?,
        None => sut::load_memory(sut.kind, &img),
    };
    let there = sut::view(sut.kind, &*fresh)?;
    if let Some(x) = sut::view_diff(&here, &there) {
        return Err(format!("this session / after re-opening: {}", x));
    }
    Ok(())
}

/// Run a whole history.
pub fn run(h: &History, flags: Flags, obs: &mut Obs) -> Result<Exec, String> {
    let mut x = Exec::new(&h.start, h.memory, flags)?;
    x.check()?;
    for op in &h.ops {
        x.step(op)?;
        if x.lost {
            obs.label("outcome-differs");
            break;
        }
    }
    x.stats.report(obs);
    obs.label_if(matches!(h.start, Start::Foreign(_)), "foreign-image");
    obs.label_if(x.model.geos, "geos-disk");
    obs.label_if(!h.memory, "image-file");
    Ok(x)
}
