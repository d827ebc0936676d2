//! C24: stopping between any two sector updates.

use std::cell::RefCell;
use std::io::Write;
use std::rc::Rc;

use cbm::disk::file::{FileOps, Scheme};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::geom::Kind;
use crate::hist::{self, start_strategy, Start};
use crate::raw::Raw;
use crate::runner::{Ctx, Obs, Res};
use crate::sut::{self, file_type, load_memory, pet, plain_entry, records, show_err, DynDisk, LEntry, Sut};
use crate::util::{content, diff, len_strategy, name_strategy};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Create { name: Vec<u8>, ftype: u8 },
    /// Append in writes of the given lengths; true: flush afterwards.
    Append { sel: usize, writes: Vec<(usize, bool)>, seed: u64 },
    Rename { sel: usize, to: Vec<u8> },
    Delete { sel: usize },
    /// Fill the disk leaving only a few blocks, or the directory.
    Files { n: usize },
    Reopen,
}

fn op_strategy() -> BoxedStrategy<Op> {
    let f = any::<usize>;
    prop_oneof![
        4 => (name_strategy(), 0u8..=3).prop_map(|(name, ftype)| Op::Create { name, ftype }),
        6 => (f(), prop::collection::vec((prop_oneof![len_strategy(3), 0usize..2000], any::<bool>()), 1..4), any::<u64>())
            .prop_map(|(sel, writes, seed)| Op::Append { sel, writes, seed }),
        2 => (f(), name_strategy()).prop_map(|(sel, to)| Op::Rename { sel, to }),
        3 => f().prop_map(|sel| Op::Delete { sel }),
        1 => (1usize..20).prop_map(|n| Op::Files { n }),
        1 => Just(Op::Reopen),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    start: Start,
    memory: bool,
    ops: Vec<Op>,
}

/// What a file looks like: its entry and records.
type Files = Vec<(LEntry, Vec<Vec<u8>>)>;

fn files(d: &DynDisk) -> Result<Files, String> {
    let mut v = vec![];
    for e in d.directory().map_err(|e| format!("the directory cannot be read: {}", show_err(&e)))? {
        let f = d
            .open_file_from_entry(&e)
            .and_then(|f| records(&f))
            .map_err(|x| format!("{:?} cannot be read: {}", plain_entry(&e).name, show_err(&x)))?;
        v.push((plain_entry(&e), f));
    }
    Ok(v)
}

#[derive(Clone, Debug)]
enum During {
    Create { name: Vec<u8>, ftype: u8 },
    /// The file at this index, with the contents that are safe and those being written.
    Write { at: usize, safe: usize, data: Vec<u8> },
    Rename { at: usize, to: Vec<u8> },
    Delete { at: usize },
}

struct Snaps {
    /// Image before a sector write, and the step it belongs to.
    list: Vec<(Vec<u8>, usize)>,
    step: usize,
}

fn check_point(kind: Kind, img: &[u8], before: &Files, during: &During) -> Res {
    // Directory and chains as found by the library in the image left behind.
    let d = load_memory(kind, img);
    let now = sut::unmetered(|| files(&*d))?;
    let mut rest = now.clone();
    let mut take = |n: usize| -> Option<(LEntry, Vec<Vec<u8>>)> {
        let pos = before[n].0.position;
        rest.iter().position(|x| x.0.position == pos).map(|i| rest.remove(i))
    };
    let target = match during {
        During::Create { .. } => None,
        During::Write { at, .. } | During::Rename { at, .. } | During::Delete { at } => Some(*at),
    };
    for n in 0..before.len() {
        let f = take(n);
        let (e, r) = &before[n];
        if Some(n) != target {
            match f {
                None => return Err(format!("{:?} is gone", e.name)),
                Some(ref x) if x.0 != *e => return Err(format!("entry {:?} became {:?}", e, x.0)),
                Some(ref x) if x.1 != *r => return Err(format!("the contents of {:?} changed", e.name)),
                _ => continue,
            }
        }
        match (during, f) {
            (During::Delete { .. }, None) => (),
            (During::Delete { .. }, Some(x)) => {
                if x.0 != *e || x.1 != *r {
                    return Err(format!("{:?} is neither intact nor gone: {:?}", e.name, x.0));
                }
            }
            (_, None) => return Err(format!("{:?} is gone", e.name)),
            (During::Rename { to, .. }, Some(x)) => {
                let mut e2 = e.clone();
                e2.name = to.clone();
                if (x.0 != *e && x.0 != e2) || x.1 != *r {
                    return Err(format!("{:?} became {:?}", e.name, x.0));
                }
            }
            (During::Write { safe, data, .. }, Some(x)) => {
                let mut e2 = x.0.clone();
                e2.size = e.size;
                if e2 != *e {
                    return Err(format!("entry {:?} became {:?}", e, x.0));
                }
                if x.0.size < e.size || (x.0.size - e.size) as usize > data.len() / 254 + 1 {
                    return Err(format!("the size of {:?} went from {} to {}", e.name, e.size, x.0.size));
                }
                let got = &x.1[0];
                if got.len() < *safe {
                    return Err(format!("{:?} has {} bytes, but {} were flushed", e.name, got.len(), safe));
                }
                if !data.starts_with(got) {
                    return Err(format!("contents of {:?}: {}", e.name, diff(got, data)));
                }
            }
            (During::Create { .. }, _) => unreachable!(),
        }
    }
    // Nothing else is there, but for a file being created.
    for (e, r) in rest {
        match during {
            During::Create { name, ftype } => {
                if e.name != *name || e.attr != 0x80 | ftype {
                    return Err(format!("a new entry {:?}", e));
                }
                if r.iter().any(|x| !x.is_empty()) {
                    return Err(format!("the new file {:?} is not empty", e.name));
                }
            }
            _ => return Err(format!("a new entry {:?}", e)),
        }
    }
    Ok(())
}

/// Run one operation with the observer on; check every point of it.
fn watch(
    s: &mut Sut,
    before: &Files,
    during: Vec<During>,
    what: &'static str,
    obs: &mut Obs,
    op: &mut dyn FnMut(&mut Sut, &Rc<RefCell<Snaps>>) -> Res,
) -> Res {
    let snaps = Rc::new(RefCell::new(Snaps { list: vec![], step: 0 }));
    {
        let snaps = snaps.clone();
        cbm::verif::set_write_observer(Some(Box::new(move |img: &[u8]| {
            let mut s = snaps.borrow_mut();
            let step = s.step;
            let same = s.list.last().map_or(false, |(i, st)| *st == step && i[..] == *img);
            if !same && s.list.len() < 400 {
                s.list.push((img.to_vec(), step));
            }
        })));
    }
    let r = op(s, &snaps);
    cbm::verif::set_write_observer(None);
    r?;
    let list = std::mem::replace(&mut snaps.borrow_mut().list, vec![]);
    if list.len() > 2 {
        obs.nontrivial();
    }
    obs.label_if(list.len() > 20, "20+ points");
    obs.label(what);
    for (n, (img, step)) in list.iter().enumerate() {
        check_point(s.kind, img, before, &during[*step])
            .map_err(|e| format!("stopping in {} before write {}: {}", what, n, e))?;
    }
    let end = s.image();
    let last = snaps.borrow().step;
    check_point(s.kind, &end, before, &during[last])
        .map_err(|e| format!("stopping after {}: {}", what, e))
}

fn pick(files: &Files, sel: usize, linear: bool) -> Option<usize> {
    let v: Vec<usize> =
        (0..files.len()).filter(|i| !linear || files[*i].0.scheme == crate::raw::Scheme::Linear).collect();
    if v.is_empty() {
        None
    } else {
        Some(v[sel % v.len()])
    }
}

fn run(c: &Case, obs: &mut Obs) -> Res {
    let (mut s, _) = hist::start(&c.start, c.memory)?;
    for op in &c.ops {
        let before = files(s.d())?;
        match op {
            Op::Reopen => s.reopen(true)?,
            Op::Files { n } => {
                for i in 0..*n {
                    let name = format!("FILL{}", i);
                    if let Ok(f) = s.m().create_file(&pet(name.as_bytes()), file_type(1), Scheme::Linear) {
                        if let Ok(mut w) = f.writer() {
                            let _ = w.write_all(&content(30 * i, i as u64));
                        }
                    }
                }
            }
            Op::Create { name, ftype } => {
                let during = vec![During::Create { name: name.clone(), ftype: *ftype }];
                watch(&mut s, &before, during, "creating", obs, &mut |s, _| {
                    // Whether it can be created is another question (C04).
                    let _ = s.m().create_file(&pet(name), file_type(*ftype), Scheme::Linear);
                    Ok(())
                })?;
            }
            Op::Rename { sel, to } => {
                if let Some(at) = pick(&before, *sel, false) {
                    let during = vec![During::Rename { at, to: to.clone() }];
                    let name = before[at].0.name.clone();
                    if before.iter().filter(|x| x.0.name == name).count() > 1 {
                        continue;
                    }
                    watch(&mut s, &before, during, "renaming", obs, &mut |s, _| {
                        let _ = s.m().rename(&pet(&name), &pet(to));
                        Ok(())
                    })?;
                }
            }
            Op::Delete { sel } => {
                if let Some(at) = pick(&before, *sel, false) {
                    let pos = before[at].0.position;
                    watch(&mut s, &before, vec![During::Delete { at }], "deleting", obs, &mut |s, _| {
                        let dir = s.d().directory().map_err(|e| show_err(&e))?;
                        let e = dir.iter().find(|e| plain_entry(e).position == pos).unwrap();
                        let mut f = s.d().open_file_from_entry(e).map_err(|e| show_err(&e))?;
                        let _ = f.delete();
                        Ok(())
                    })?;
                }
            }
            Op::Append { sel, writes, seed } => {
                if let Some(at) = pick(&before, *sel, true) {
                    let old = before[at].1[0].clone();
                    let total: usize = writes.iter().map(|w| w.0).sum();
                    let all = [&old[..], &content(total, *seed)[..]].concat();
                    // Steps: opening the writer, then each write and flush, then dropping.
                    let mut during = vec![During::Write { at, safe: old.len(), data: old.clone() }];
                    let mut safe = old.len();
                    let mut len = old.len();
                    for (n, flush) in writes {
                        len += n;
                        during.push(During::Write { at, safe, data: all[..len].to_vec() });
                        if *flush {
                            during.push(During::Write { at, safe, data: all[..len].to_vec() });
                            safe = len;
                        }
                    }
                    during.push(During::Write { at, safe, data: all[..len].to_vec() });
                    let mut failed = false;
                    let pos = before[at].0.position;
                    watch(&mut s, &before, during.clone(), "writing", obs, &mut |s, snaps| {
                        let dir = s.d().directory().map_err(|e| show_err(&e))?;
                        let e = dir.iter().find(|e| plain_entry(e).position == pos).unwrap();
                        let f = s.d().open_file_from_entry(e).map_err(|e| show_err(&e))?;
                        let mut w = f.writer().map_err(|e| show_err(&e))?;
                        let mut at = old.len();
                        for (n, flush) in writes {
                            snaps.borrow_mut().step += 1;
                            if w.write_all(&all[at..at + n]).is_err() {
                                // The disk is full: what was written so far is kept by dropping.
                                failed = true;
                                break;
                            }
                            at += n;
                            if *flush {
                                snaps.borrow_mut().step += 1;
                                w.flush().map_err(|e| show_err(&e))?;
                            }
                        }
                        if !failed {
                            let last = during.len() - 1;
                            snaps.borrow_mut().step = last;
                        }
                        drop(w);
                        Ok(())
                    })?;
                    obs.label_if(failed, "disk full");
                    if !failed {
                        // Completed: everything is there.
                        let img = s.image();
                        let raw = Raw::new(s.kind, &img);
                        let got = raw.chain_data(before[at].0.first).map_err(|e| format!("{:?}", e))?;
                        if got != all {
                            return Err(format!("after writing: {}", diff(&got, &all)));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

/// Nearly full disks: little is left free, so the last writes run out of space.
fn full_strategy() -> BoxedStrategy<Case> {
    (case_strategy(), 0usize..6)
        .prop_map(|(mut c, free)| {
            c.ops.insert(0, Op::Files { n: 150 + free });
            c
        })
        .boxed()
}

fn case_strategy() -> BoxedStrategy<Case> {
    (start_strategy(), any::<bool>(), prop::collection::vec(op_strategy(), 1..8))
        .prop_map(|(start, memory, ops)| Case { start, memory, ops })
        .boxed()
}

pub fn c24(ctx: &mut Ctx) {
    ctx.sub("history", 3_000, "an operation of more than two sector updates was interrupted", &case_strategy, &run);
    ctx.sub("full", 300, "the same, starting with a full directory", &full_strategy, &run);
}
