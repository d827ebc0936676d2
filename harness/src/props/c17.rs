//! C17: several readers and writers at the same time.

use std::io::{Read, Write};

use cbm::disk::file::{File, FileOps, Scheme as LScheme};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::foreign::{blocks_for, build, foreign_strategy, Foreign};
use crate::hist::{check_content, check_owner, check_reopen, Flags, Model};
use crate::raw::{Raw, Scheme};
use crate::runner::{Ctx, Obs, Res};
use crate::sut::{file_type, pet, show_err, Sut};
use crate::util::{content, diff, name_strategy, show_bytes};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    Create { name: Vec<u8>, ftype: u8, writer: bool },
    OpenWriter { sel: usize },
    /// Open a file now, use it for writing later.
    OpenFile { sel: usize },
    Write { h: usize, len: usize },
    Flush { h: usize },
    CloseWriter { h: usize },
    OpenReader { sel: usize },
    Read { h: usize, len: usize },
    ReadRest { h: usize },
    CloseReader { h: usize },
    Rename { sel: usize, to: Vec<u8> },
    /// Rename a file that is being written.
    RenameOpen { h: usize, to: Vec<u8> },
    Delete { sel: usize },
    List,
    /// Flush all writers and look at everything.
    Sync,
}

fn act_strategy() -> BoxedStrategy<Act> {
    let f = any::<usize>;
    let len = || {
        prop_oneof![
            2 => 0usize..300,
            3 => (0usize..5, -2i64..=2).prop_map(|(b, d)| (b as i64 * 254 + d).max(0) as usize),
            1 => 0usize..3000,
        ]
    };
    prop_oneof![
        4 => (name_strategy(), 0u8..=3, any::<bool>()).prop_map(|(name, ftype, writer)| Act::Create { name, ftype, writer }),
        4 => f().prop_map(|sel| Act::OpenWriter { sel }),
        1 => f().prop_map(|sel| Act::OpenFile { sel }),
        12 => (f(), len()).prop_map(|(h, len)| Act::Write { h, len }),
        2 => f().prop_map(|h| Act::Flush { h }),
        2 => f().prop_map(|h| Act::CloseWriter { h }),
        3 => f().prop_map(|sel| Act::OpenReader { sel }),
        5 => (f(), len()).prop_map(|(h, len)| Act::Read { h, len }),
        1 => f().prop_map(|h| Act::ReadRest { h }),
        1 => f().prop_map(|h| Act::CloseReader { h }),
        2 => (f(), name_strategy()).prop_map(|(sel, to)| Act::Rename { sel, to }),
        2 => (f(), name_strategy()).prop_map(|(h, to)| Act::RenameOpen { h, to }),
        3 => f().prop_map(|sel| Act::Delete { sel }),
        1 => Just(Act::List),
        2 => Just(Act::Sync),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    image: Foreign,
    memory: bool,
    acts: Vec<Act>,
}

pub fn case_strategy(n: usize) -> BoxedStrategy<Case> {
    (
        foreign_strategy(5, 4, false),
        any::<bool>(),
        prop::collection::vec(act_strategy(), n / 4..=n),
    )
        .prop_map(|(image, memory, acts)| Case { image, memory, acts })
        .boxed()
}

struct Wr {
    name: Vec<u8>,
    file: Option<File>,
    w: Option<Box<dyn Write>>,
    n: u64,
}

struct Rd {
    name: Vec<u8>,
    r: Box<dyn Read>,
    got: Vec<u8>,
    want: Vec<u8>,
}

impl Rd {
    fn read(&mut self, n: usize) -> Result<bool, String> {
        let mut buf = vec![0u8; n];
        let k = self.r.read(&mut buf).map_err(|e| format!("reading {}: {}", show_bytes(&self.name), show_err(&e)))?;
        self.got.extend_from_slice(&buf[..k]);
        if !self.want.starts_with(&self.got) {
            return Err(format!("reading {}: {}", show_bytes(&self.name), diff(&self.got, &self.want)));
        }
        if n > 0 && k == 0 && self.got.len() != self.want.len() {
            return Err(format!(
                "reading {}: end after {} of {} bytes", show_bytes(&self.name), self.got.len(), self.want.len()
            ));
        }
        Ok(k > 0)
    }
}

fn handles(c: &Case, obs: &mut Obs) -> Res {
    run(c, Flags { content: true, owner: true, ..Flags::default() }, obs)
}

/// Run a history with open handles; whenever all writers have been flushed, look at what the
/// flags ask for.
pub fn run(c: &Case, flags: Flags, obs: &mut Obs) -> Res {
    let verify = |s: &Sut, model: &Model| verify(s, model, flags);
    let b = build(&c.image);
    let mut s = Sut::new(b.kind, &b.bytes, c.memory)?;
    let mut model = Model::from_built(&b, &c.image);
    let mut writers: Vec<Wr> = vec![];
    let mut readers: Vec<Rd> = vec![];
    let mut seed = 1u64;
    let mut overlap = 0;
    let mut grown_while_open = 0;
    for (k, a) in c.acts.iter().enumerate() {
        let at = |e: String| format!("step {} ({:?}): {}", k, a, e);
        let busy = |n: &[u8], writers: &[Wr], readers: &[Rd]| {
            writers.iter().any(|w| w.name == n) || readers.iter().any(|r| r.name == n)
        };
        match *a {
            Act::Create { ref name, ftype, writer } => {
                if model.find(name).is_some() || model.files.len() > 60 || model.free_data() < 60 || writers.len() > 4 {
                    continue;
                }
                let f = s
                    .m()
                    .create_file(&pet(name), file_type(ftype), LScheme::Linear)
                    .map_err(|e| at(show_err(&e)))?;
                model.files.push(Model::new_file(name, ftype));
                if writer {
                    let w = f.writer().map_err(|e| at(show_err(&e)))?;
                    writers.push(Wr { name: name.clone(), file: None, w: Some(w), n: 0 });
                }
            }
            Act::OpenWriter { sel } | Act::OpenFile { sel } => {
                let v: Vec<_> = model
                    .files
                    .iter()
                    .filter(|f| f.scheme == Scheme::Linear && !busy(&f.name, &writers, &readers))
                    .map(|f| f.name.clone())
                    .collect();
                if v.is_empty() || writers.len() > 4 {
                    continue;
                }
                let name = v[sel % v.len()].clone();
                let f = s.d().open_file(&pet(&name)).map_err(|e| at(show_err(&e)))?;
                let w = match a {
                    Act::OpenWriter { .. } => Some(f.writer().map_err(|e| at(show_err(&e)))?),
                    _ => None,
                };
                writers.push(Wr { name, file: Some(f), w, n: 0 });
            }
            Act::Write { h, len } => {
                if writers.is_empty() || model.free_data() < len / 254 + 40 {
                    continue;
                }
                let i = h % writers.len();
                if writers.len() > 1 {
                    overlap += 1;
                }
                let w = &mut writers[i];
                if w.w.is_none() {
                    w.w = Some(w.file.as_ref().unwrap().writer().map_err(|e| at(show_err(&e)))?);
                }
                seed += 1;
                let data = content(len, seed);
                w.w.as_mut().unwrap().write_all(&data).map_err(|e| at(format!("{}: {}", show_bytes(&w.name), show_err(&e))))?;
                w.n += 1;
                let m = model.find(&w.name).unwrap();
                let m = &mut model.files[m];
                m.records[0].extend_from_slice(&data);
                let n = m.blocks.max(blocks_for(m.records[0].len()));
                if n > m.blocks {
                    grown_while_open += 1;
                }
                m.blocks = n;
            }
            Act::Flush { h } => {
                if !writers.is_empty() {
                    let i = h % writers.len();
                    if let Some(ref mut w) = writers[i].w {
                        w.flush().map_err(|e| at(show_err(&e)))?;
                    }
                }
            }
            Act::CloseWriter { h } => {
                if !writers.is_empty() {
                    let i = h % writers.len();
                    let w = writers.remove(i);
                    drop(w.w);
                    let m = &model.files[model.find(&w.name).unwrap()];
                    let got = crate::sut::read_file(s.d(), &w.name).map_err(|e| at(show_err(&e)))?;
                    if got != m.records[0] {
                        return Err(at(format!("{}: {}", show_bytes(&w.name), diff(&got, &m.records[0]))));
                    }
                }
            }
            Act::OpenReader { sel } => {
                let v: Vec<_> = model
                    .files
                    .iter()
                    .filter(|f| {
                        matches!(f.scheme, Scheme::Linear | Scheme::GeosSeq)
                            && !writers.iter().any(|w| w.name == f.name)
                    })
                    .collect();
                if v.is_empty() || readers.len() > 5 {
                    continue;
                }
                let m = v[sel % v.len()];
                let f = s.d().open_file(&pet(&m.name)).map_err(|e| at(show_err(&e)))?;
                let r = f.reader().map_err(|e| at(show_err(&e)))?;
                readers.push(Rd { name: m.name.clone(), r, got: vec![], want: m.records[0].clone() });
            }
            Act::Read { h, len } => {
                if !readers.is_empty() {
                    let i = h % readers.len();
                    readers[i].read(len).map_err(at)?;
                }
            }
            Act::ReadRest { h } => {
                if !readers.is_empty() {
                    let i = h % readers.len();
                    while readers[i].read(500).map_err(&at)? {}
                }
            }
            Act::CloseReader { h } => {
                if !readers.is_empty() {
                    let i = h % readers.len();
                    let mut r = readers.remove(i);
                    while r.read(300).map_err(&at)? {}
                }
            }
            Act::Rename { .. } | Act::RenameOpen { .. } => {
                let (from, to) = match a {
                    Act::Rename { sel, to } if !model.files.is_empty() => {
                        (model.files[sel % model.files.len()].name.clone(), to)
                    }
                    Act::RenameOpen { h, to } if !writers.is_empty() => {
                        obs.label("rename-open");
                        (writers[h % writers.len()].name.clone(), to)
                    }
                    _ => continue,
                };
                if model.find(to).is_some() {
                    continue;
                }
                s.m().rename(&pet(&from), &pet(to)).map_err(|e| at(show_err(&e)))?;
                let i = model.find(&from).unwrap();
                model.files[i].name = to.clone();
                for w in writers.iter_mut().filter(|w| w.name == from) {
                    w.name = to.clone();
                }
                for r in readers.iter_mut().filter(|r| r.name == from) {
                    r.name = to.clone();
                }
            }
            Act::Delete { sel } => {
                let v: Vec<_> = model
                    .files
                    .iter()
                    .map(|f| f.name.clone())
                    .filter(|n| !busy(n, &writers, &readers))
                    .collect();
                if v.is_empty() {
                    continue;
                }
                let name = &v[sel % v.len()];
                s.d()
                    .open_file(&pet(name))
                    .and_then(|mut f| f.delete())
                    .map_err(|e| at(show_err(&e)))?;
                let i = model.find(name).unwrap();
                model.files.remove(i);
                obs.label_if(!writers.is_empty(), "delete-while-writing");
            }
            Act::List => {
                let mut names: Vec<_> = crate::sut::listing(s.d())
                    .map_err(|e| at(show_err(&e)))?
                    .into_iter()
                    .map(|e| e.name)
                    .collect();
                let mut want: Vec<_> = model.files.iter().map(|f| f.name.clone()).collect();
                names.sort();
                want.sort();
                if names != want {
                    return Err(at(format!("the directory lists {:?} instead of {:?}", names, want)));
                }
            }
            Act::Sync => {
                for w in writers.iter_mut() {
                    if let Some(ref mut w) = w.w {
                        w.flush().map_err(|e| at(show_err(&e)))?;
                    }
                }
                verify(&s, &model).map_err(at)?;
            }
        }
    }
    for r in readers.iter_mut() {
        while r.read(700)? {}
    }
    drop(readers);
    // Close in reverse order of opening.
    while let Some(w) = writers.pop() {
        drop(w);
    }
    verify(&s, &model).map_err(|e| format!("at the end: {}", e))?;
    s.reopen(false)?;
    verify(&s, &model).map_err(|e| format!("after re-opening: {}", e))?;
    obs.label_if(overlap > 1, "several-writers");
    obs.label_if(grown_while_open > 1, "growing");
    if overlap > 1 {
        obs.nontrivial();
    }
    Ok(())
}

fn verify(s: &Sut, model: &Model, flags: Flags) -> Res {
    if flags.content {
        check_content(model, s.d())?;
    }
    if flags.owner {
        let img = s.image();
        check_owner(&Raw::new(model.kind, &img), s.d())?;
        let free = s.d().blocks_free().map_err(|e| show_err(&e))?;
        if free != model.free_data() {
            return Err(format!("{} blocks free are reported instead of {}", free, model.free_data()));
        }
    }
    if flags.reopen {
        check_reopen(s, false)?;
        check_reopen(s, true)?;
    }
    Ok(())
}

pub fn c17(ctx: &mut Ctx) {
    let rule = "interleavings of up to five writers and six readers with creating, renaming and deleting on disks of all file kinds; non-trivial: at least two writes while another writer was open";
    ctx.sub("handles", 30000, rule, &|| case_strategy(30), &handles);
    ctx.sub("long", 14000, rule, &|| case_strategy(90), &handles);
}
