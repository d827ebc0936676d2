//! C16: results do not depend on how reads and writes are split up.

use std::io::{Read, Write};

use cbm::disk::file::{FileOps, Scheme};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::foreign::{build, fspec_strategy, foreign_strategy, Body, Foreign};
use crate::raw::Raw;
use crate::runner::{Ctx, Obs, Res};
use crate::sut::{file_type, listing, occupied, pet, read_file, show_err, Sut};
use crate::util::{content, diff, len_strategy, Rng};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Write(usize),
    Flush,
    /// Drop the writer and get another from the same file object.
    Writer,
    /// Drop the writer and open the file again.
    File,
    /// Drop everything and open the image again.
    Image,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Writing {
    image: Foreign,
    memory: bool,
    /// Append to an existing linear file instead of a new one.
    existing: Option<usize>,
    len: usize,
    seed: u64,
    steps: Vec<Step>,
}

fn step_strategy() -> BoxedStrategy<Step> {
    prop_oneof![
        6 => prop_oneof![
            3 => 0usize..600,
            4 => (0usize..4, -2i64..=2).prop_map(|(b, d)| (b as i64 * 254 + d).max(0) as usize),
            2 => 0usize..4,
            1 => 0usize..4000,
        ].prop_map(Step::Write),
        2 => Just(Step::Flush),
        2 => Just(Step::Writer),
        1 => Just(Step::File),
        1 => Just(Step::Image),
    ]
    .boxed()
}

fn writing_strategy() -> BoxedStrategy<Writing> {
    (
        foreign_strategy(4, 6, false),
        any::<bool>(),
        proptest::option::of(any::<usize>()),
        len_strategy(12),
        any::<u64>(),
        prop::collection::vec(step_strategy(), 1..=14),
    )
        .prop_map(|(image, memory, existing, len, seed, steps)| Writing {
            image, memory, existing, len, seed, steps,
        })
        .boxed()
}

/// (contents, listed size, number of occupied blocks) of a file.
fn outcome(s: &Sut, name: &[u8]) -> Result<(Vec<u8>, u16, usize), String> {
    let data = read_file(s.d(), name).map_err(|e| format!("reading back: {}", show_err(&e)))?;
    let size = listing(s.d())
        .map_err(|e| show_err(&e))?
        .iter()
        .find(|e| e.name == name)
        .map(|e| e.size)
        .ok_or("the file is not listed")?;
    let f = s.d().open_file(&pet(name)).map_err(|e| show_err(&e))?;
    let occ = occupied(&f).map_err(|e| show_err(&e))?;
    Ok((data, size, occ.len()))
}

fn writing(c: &Writing, obs: &mut Obs) -> Res {
    let b = build(&c.image);
    let kind = b.kind;
    let linear: Vec<_> = b
        .files
        .iter()
        .filter(|m| matches!(m.body, Body::Linear { .. }))
        .collect();
    let (name, old) = match c.existing {
        Some(n) if !linear.is_empty() => {
            let m = linear[n % linear.len()];
            obs.label("existing");
            (m.name.clone(), m.records[0].clone())
        }
        _ => (b"NEW FILE\x01".to_vec(), vec![]),
    };
    if b.files.iter().any(|m| m.name == b"NEW FILE\x01") || c.len / 254 + 12 > Raw::new(kind, &b.bytes).free_data().len() {
        return Ok(());
    }
    let new = c.existing.is_none() || linear.is_empty();
    let data = content(c.len, c.seed);
    let start = |memory: bool| -> Result<Sut, String> {
        let mut s = Sut::new(kind, &b.bytes, memory)?;
        if new {
            s.m()
                .create_file(&pet(&name), file_type(2), Scheme::Linear)
                .map_err(|e| format!("creating: {}", show_err(&e)))?;
        }
        Ok(s)
    };

    // At once.
    let one = start(true)?;
    {
        let f = one.d().open_file(&pet(&name)).map_err(|e| show_err(&e))?;
        let mut w = f.writer().map_err(|e| show_err(&e))?;
        w.write_all(&data).map_err(|e| format!("writing at once: {}", show_err(&e)))?;
        w.flush().map_err(|e| format!("writing at once: {}", show_err(&e)))?;
    }
    let want = outcome(&one, &name)?;
    let mut all = old.clone();
    all.extend_from_slice(&data);
    if want.0 != all {
        return Err(format!("written at once: {}", diff(&want.0, &all)));
    }

    // In parts.
    let mut s = start(c.memory)?;
    let mut done = 0;
    let mut steps = c.steps.iter();
    let mut parts = 0;
    'image: loop {
        let mut again = false;
        {
            let mut f = s.d().open_file(&pet(&name)).map_err(|e| show_err(&e))?;
            let mut w = f.writer().map_err(|e| format!("writer: {}", show_err(&e)))?;
            while done < data.len() || steps.len() > 0 {
                match steps.next().unwrap_or(&Step::Write(usize::MAX)) {
                    Step::Write(n) => {
                        let rest = &data[done..];
                        let part = &rest[..(*n).min(rest.len())];
                        let got = w.write(part).map_err(|e| format!("writing {} bytes at {}: {}", part.len(), done, show_err(&e)))?;
                        if got > part.len() {
                            return Err(format!("{} of {} bytes reported as written", got, part.len()));
                        }
                        if got == 0 && !part.is_empty() {
                            return Err(format!("none of {} bytes written", part.len()));
                        }
                        done += got;
                        parts += 1;
                    }
                    Step::Flush => {
                        w.flush().map_err(|e| format!("flush: {}", show_err(&e)))?;
                        obs.label("flush");
                    }
                    Step::Writer => {
                        drop(w);
                        w = f.writer().map_err(|e| format!("writer: {}", show_err(&e)))?;
                        obs.label("writer-again");
                    }
                    Step::File => {
                        drop(w);
                        f = s.d().open_file(&pet(&name)).map_err(|e| show_err(&e))?;
                        w = f.writer().map_err(|e| format!("writer: {}", show_err(&e)))?;
                        obs.label("file-again");
                    }
                    Step::Image => {
                        again = true;
                        break;
                    }
                }
            }
        }
        if again {
            s.reopen(true)?;
            obs.label("image-again");
        } else {
            break 'image;
        }
    }
    if parts > 1 {
        obs.nontrivial();
    }
    for round in 0..2 {
        let got = outcome(&s, &name)?;
        if got.0 != all {
            return Err(format!("written in parts: {}", diff(&got.0, &all)));
        }
        if got.1 != want.1 || got.2 != want.2 {
            return Err(format!(
                "written at once the file has {} blocks (listed as {}), in parts {} (listed as {})",
                want.2, want.1, got.2, got.1
            ));
        }
        if round == 0 {
            s.reopen(false)?;
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Filling {
    image: Foreign,
    memory: bool,
    existing: Option<usize>,
    /// Data blocks left free.
    left: usize,
    extra: usize,
    seed: u64,
    steps: Vec<Step>,
}

fn filling_strategy() -> BoxedStrategy<Filling> {
    (
        foreign_strategy(4, 6, false),
        any::<bool>(),
        proptest::option::of(any::<usize>()),
        0usize..6,
        prop_oneof![3 => 1usize..300, 1 => 1usize..3000],
        any::<u64>(),
        prop::collection::vec(step_strategy(), 1..=10),
    )
        .prop_map(|(image, memory, existing, left, extra, seed, steps)| Filling {
            image, memory, existing, left, extra, seed, steps,
        })
        .boxed()
}

/// Writing more than the disk can hold: the counts reported are the bytes stored.
fn filling(c: &Filling, obs: &mut Obs) -> Res {
    let mut b = build(&c.image);
    let kind = b.kind;
    let linear: Vec<_> = b.files.iter().filter(|m| matches!(m.body, Body::Linear { .. })).collect();
    let (name, old, tail) = match c.existing {
        Some(n) if !linear.is_empty() => {
            let m = linear[n % linear.len()];
            obs.label("existing");
            (m.name.clone(), m.records[0].clone(), m.chain.last().copied())
        }
        _ => (b"NEW FILE\x01".to_vec(), vec![], None),
    };
    if b.files.iter().any(|m| m.name == b"NEW FILE\x01") {
        return Ok(());
    }
    // Leave some blocks free.
    let mut rng = Rng::new(c.seed);
    let mut free: Vec<_> = Raw::new(kind, &b.bytes).free_data().into_iter().collect();
    rng.shuffle(&mut free);
    let left = (c.left + tail.is_none() as usize).min(free.len());
    let used = free.split_off(left).into_iter().collect();
    super::c23::set_used(kind, &mut b.bytes, &used);
    let mut s = Sut::new(kind, &b.bytes, c.memory)?;
    if tail.is_none() {
        if left == 0 {
            return Ok(());
        }
        s.m().create_file(&pet(&name), file_type(2), Scheme::Linear).map_err(|e| format!("creating: {}", show_err(&e)))?;
    }
    let image = s.image();
    let raw = Raw::new(kind, &image);
    let chain = raw
        .entries()
        .map_err(|e| format!("{:?}", e))?
        .iter()
        .find(|e| e.name() == name)
        .map(|e| raw.chain_prefix(e.first()).0)
        .ok_or("the file is not on the disk")?;
    let room = 256 - chain.last().map_or(256, |(_, d)| d.len()) + 254 * raw.free_data().len();
    let data = content(room + c.extra, c.seed);
    let mut done = 0;
    let mut steps = c.steps.iter();
    let mut short = false;
    {
        let mut f = s.d().open_file(&pet(&name)).map_err(|e| show_err(&e))?;
        let mut w = f.writer().map_err(|e| format!("writer: {}", show_err(&e)))?;
        let mut full = false;
        while !full || steps.len() > 0 {
            match steps.next().unwrap_or(&Step::Write(usize::MAX)) {
                Step::Write(n) => {
                    let rest = &data[done..];
                    let part = &rest[..(*n).min(rest.len())];
                    match w.write(part) {
                        Ok(got) => {
                            if got > part.len() || (got == 0 && !part.is_empty()) {
                                return Err(format!("{} of {} bytes reported as written", got, part.len()));
                            }
                            if done + got > room {
                                return Err(format!("{} bytes accepted, there is room for {}", done + got, room));
                            }
                            short |= got < part.len();
                            done += got;
                        }
                        Err(e) => {
                            if crate::sut::derr(&e) != Some(cbm::disk::DiskError::DiskFull) {
                                return Err(format!("writing {} bytes at {}: {}", part.len(), done, show_err(&e)));
                            }
                            if done != room {
                                return Err(format!("the disk is reported full after {} of {} bytes were accepted", done, room));
                            }
                            full = true;
                        }
                    }
                }
                Step::Flush => w.flush().map_err(|e| format!("flush: {}", show_err(&e)))?,
                Step::Writer | Step::Image => {
                    drop(w);
                    w = f.writer().map_err(|e| format!("writer: {}", show_err(&e)))?;
                }
                Step::File => {
                    drop(w);
                    f = s.d().open_file(&pet(&name)).map_err(|e| show_err(&e))?;
                    w = f.writer().map_err(|e| format!("writer: {}", show_err(&e)))?;
                }
            }
        }
    }
    let mut all = old;
    all.extend_from_slice(&data[..done]);
    for round in 0..2 {
        let got = outcome(&s, &name)?;
        if got.0 != all {
            return Err(format!("{} bytes were reported as written: {}", done, diff(&got.0, &all)));
        }
        if round == 0 {
            s.reopen(false)?;
        }
    }
    obs.label_if(short, "short-write");
    obs.label_if(room == 0, "no-room");
    if room > 0 {
        obs.nontrivial();
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Reading {
    image: Foreign,
    memory: bool,
    sizes: Vec<usize>,
}

fn reading_strategy() -> BoxedStrategy<Reading> {
    let size = prop_oneof![
        3 => 0usize..700,
        3 => prop::sample::select(vec![0usize, 1, 2, 3, 252, 253, 254, 255, 256, 257, 507, 508, 509, 512, 4096]),
    ];
    (
        (crate::geom::kind_strategy(), prop::collection::vec(fspec_strategy(10, true, false), 1..=3), any::<bool>(), 0u8..6, any::<bool>(), any::<u64>()),
        any::<bool>(),
        prop::collection::vec(size, 1..=20),
    )
        .prop_map(|((kind, files, geos, placement, high, seed), memory, sizes)| Reading {
            image: Foreign {
                kind, name: b"D".to_vec(), id: [1, 2], geos, extra_dir: 0, stale: 1, files, placement, high, dirty: true, odd: (seed >> 40) as u8 & 7, seed,
            },
            memory,
            sizes,
        })
        .boxed()
}

fn reading(c: &Reading, obs: &mut Obs) -> Res {
    if c.sizes.iter().all(|n| *n == 0) {
        return Ok(());
    }
    let b = build(&c.image);
    let s = Sut::new(b.kind, &b.bytes, c.memory)?;
    for m in &b.files {
        if !matches!(m.body, Body::Linear { .. } | Body::GeosSeq { .. }) {
            continue;
        }
        let want = &m.records[0];
        let f = s.d().open_file(&pet(&m.name)).map_err(|e| show_err(&e))?;
        let at = |e: String| format!("{:?}: {}", m.name, e);
        let whole = f.record(0).map_err(|e| at(format!("record: {}", show_err(&e))))?;
        if whole != *want {
            return Err(at(format!("read as a record: {}", diff(&whole, want))));
        }
        // Two readers, advanced in turn.
        let mut readers = vec![];
        for _ in 0..2 {
            readers.push((f.reader().map_err(|e| at(show_err(&e)))?, vec![], false));
        }
        let mut k = 0;
        let mut rng = Rng::new(want.len() as u64);
        while readers.iter().any(|r| !r.2) {
            let n = c.sizes[k % c.sizes.len()];
            let which = rng.below(2);
            k += 1;
            let (r, v, end) = &mut readers[which];
            let mut buf = vec![0xEEu8; n];
            let got = r.read(&mut buf).map_err(|e| at(format!("reading at {}: {}", v.len(), show_err(&e))))?;
            if got > n {
                return Err(at(format!("{} bytes read into a buffer of {}", got, n)));
            }
            if *end && got > 0 {
                return Err(at("data after the end was reported".to_string()));
            }
            v.extend_from_slice(&buf[..got]);
            if v.len() > want.len() {
                return Err(at(format!("more than the {} bytes of the file", want.len())));
            }
            if n > 0 && got == 0 {
                if v.len() != want.len() {
                    return Err(at(format!("end of file after {} of {} bytes", v.len(), want.len())));
                }
                *end = true;
            }
            if k > 200_000 {
                return Err(at("the end is never reported".to_string()));
            }
        }
        for (_, v, _) in &readers {
            if v != want {
                return Err(at(format!("read in parts: {}", diff(v, want))));
            }
        }
        if want.len() > 1 {
            obs.nontrivial();
        }
        obs.label_if(want.len() % 254 == 0, "whole-blocks");
        obs.label_if(matches!(m.body, Body::GeosSeq { .. }), "geos");
    }
    Ok(())
}

pub fn c16(ctx: &mut Ctx) {
    ctx.sub(
        "writing",
        60000,
        "the same data written at once and in parts with flushes, new writers, re-opened files and images in between; non-trivial: more than one part",
        &writing_strategy,
        &writing,
    );
    ctx.sub(
        "filling",
        20000,
        "more data than the disk can hold, written in parts; non-trivial: there was room for some of it",
        &filling_strategy,
        &filling,
    );
    ctx.sub(
        "reading",
        60000,
        "files read at once and with any buffer sizes, two readers at a time; non-trivial: a file of at least two bytes",
        &reading_strategy,
        &reading,
    );
}
