//! C01-C04: histories against the reference model.

use crate::hist::{self, history_strategy, Flags, History, Op, Start};
use crate::runner::{Ctx, Obs, Res};
use crate::sut;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

const OPS: usize = 14;

/// Histories that fill the disk or the directory early.
pub fn crowded() -> BoxedStrategy<History> {
    let fill = prop_oneof![
        3 => (prop_oneof![Just(0usize), 0usize..6], any::<u64>()).prop_map(|(leave, seed)| Op::Fill { leave, seed }),
        1 => (100usize..310).prop_map(|n| Op::CreateMany { n }),
        1 => ((0usize..3), any::<u64>()).prop_map(|(leave, seed)| Op::Fill { leave: leave + 300, seed }),
    ];
    (
        hist::start_strategy(),
        any::<bool>(),
        prop::collection::vec(hist::op_strategy(), 0..=3),
        prop::collection::vec(fill, 1..=2),
        prop::collection::vec(hist::op_strategy(), 1..=10),
    )
        .prop_map(|(start, memory, mut ops, mid, end)| {
            ops.extend(mid);
            ops.extend(end);
            History { start, memory, ops }
        })
        .boxed()
}

fn subs(ctx: &mut Ctx, flags: Flags, n: usize, nontrivial: fn(&hist::Stats) -> bool, rule: &str) {
    let test = move |h: &History, obs: &mut Obs| -> Res {
        let x = hist::run(h, flags, obs)?;
        if nontrivial(&x.stats) {
            obs.nontrivial();
        }
        Ok(())
    };
    ctx.sub("history", n, rule, &|| history_strategy(OPS), &test);
    ctx.sub("long", n / 12, rule, &|| history_strategy(40), &test);
    ctx.sub("crowded", n / 4, rule, &crowded, &test);
    ctx.sub(
        "handles",
        n / 4,
        "operations while writers and readers of other files are open, looked at whenever all writers were flushed; non-trivial: at least two writes while another writer was open",
        &|| super::c17::case_strategy(24),
        &move |c: &super::c17::Case, obs: &mut Obs| super::c17::run(c, flags, obs),
    );
}

pub fn c01(ctx: &mut Ctx) {
    subs(
        ctx,
        Flags { content: true, outcome: true, ..Flags::default() },
        14000,
        |s| s.created + s.appended > 0 && s.deleted + s.renamed + s.formatted + s.appended > 1,
        "a history is non-trivial if a file was written and at least two further operations (append, rename, delete, format) succeeded",
    );
}

pub fn c02(ctx: &mut Ctx) {
    subs(
        ctx,
        Flags { owner: true, ..Flags::default() },
        14000,
        |s| s.mutations() > 2 && s.deleted + s.appended > 0,
        "non-trivial: at least three operations changed the disk, among them a delete or an append",
    );
}

pub fn c03(ctx: &mut Ctx) {
    subs(
        ctx,
        Flags { reopen: true, ..Flags::default() },
        9000,
        |s| s.mutations() > 1,
        "non-trivial: at least two operations changed the disk",
    );
    // Working on after a re-open is the same as working on in the same session.
    let test = |h: &History, obs: &mut Obs| -> Res {
        let plain: Vec<Op> = h.ops.iter().filter(|o| !matches!(o, Op::Reopen)).cloned().collect();
        let mut often = vec![];
        for o in &plain {
            often.push(o.clone());
            often.push(Op::Reopen);
        }
        let mut results = vec![];
        for ops in [plain, often].iter() {
            let h = History { start: h.start.clone(), memory: h.memory, ops: ops.clone() };
            let x = hist::run(&h, Flags::default(), obs)?;
            if x.stats.mutations() > 1 {
                obs.nontrivial();
            }
            results.push((x.log.clone(), x.sut.image()));
        }
        if results[0].0 != results[1].0 {
            let i = results[0].0.iter().zip(results[1].0.iter()).position(|(a, b)| a != b).unwrap_or(0);
            return Err(format!(
                "in one session: {:?}; re-opening in between: {:?}",
                results[0].0.get(i), results[1].0.get(i)
            ));
        }
        if results[0].1 != results[1].1 {
            let i = results[0].1.iter().zip(results[1].1.iter()).position(|(a, b)| a != b).unwrap();
            return Err(format!(
                "re-opening between the operations gives another image (first difference at {:#x})", i
            ));
        }
        Ok(())
    };
    ctx.sub(
        "sessions",
        5000,
        "the same history in one session and with a re-open after each operation; non-trivial: at least two operations changed the disk",
        &|| history_strategy(10),
        &test,
    );
}

/// Requests that must fail, in bulk.
pub fn refusals() -> BoxedStrategy<History> {
    let long = hist::overlong();
    let op = prop_oneof![
        3 => (any::<usize>(), 0u8..=3).prop_map(|(sel, ftype)| Op::CreateDup { sel, ftype }),
        3 => (any::<usize>(), any::<usize>()).prop_map(|(sel, other)| Op::RenameOnto { sel, other }),
        2 => (any::<usize>(), long.clone()).prop_map(|(sel, to)| Op::Rename { sel, to }),
        2 => (long.clone(), 0u8..=3).prop_map(|(name, ftype)| Op::Create { name, ftype }),
        1 => (long, any::<[u8; 2]>()).prop_map(|(name, id)| Op::Format { name, id }),
        2 => (crate::util::name_strategy(), crate::util::name_strategy()).prop_map(|(name, to)| Op::Missing { name, to }),
        2 => hist::op_strategy(),
    ];
    (
        crate::foreign::foreign_strategy(10, 10, false),
        any::<bool>(),
        prop::collection::vec(op, 1..=12),
    )
        .prop_map(|(f, memory, ops)| History { start: Start::Foreign(f), memory, ops })
        .boxed()
}

/// Fill the disk completely, byte by byte accounting at the end.
fn brimful() -> BoxedStrategy<History> {
    (
        hist::start_strategy(),
        any::<bool>(),
        prop::collection::vec(
            prop_oneof![
                3 => (0usize..4, any::<u64>()).prop_map(|(leave, seed)| Op::Fill { leave, seed }),
                4 => (any::<usize>(), 0usize..1600, any::<u64>(), hist::chunk_strategy(), 0u8..4)
                    .prop_map(|(sel, len, seed, chunk, how)| Op::Append { sel, len, seed, chunk, how }),
                2 => (any::<usize>(), any::<bool>()).prop_map(|(sel, by_entry)| Op::Delete { sel, by_entry }),
                2 => (crate::util::name_strategy(), 0u8..=3).prop_map(|(name, ftype)| Op::Create { name, ftype }),
                1 => (100usize..310).prop_map(|n| Op::CreateMany { n }),
                1 => (1usize..10, any::<usize>()).prop_map(|(n, sel)| Op::DeleteMany { n, sel }),
                1 => Just(Op::Reopen),
            ],
            2..=10,
        ),
    )
        .prop_map(|(start, memory, ops)| History { start, memory, ops })
        .boxed()
}

pub fn c04(ctx: &mut Ctx) {
    let flags = Flags { content: true, outcome: true, harmless: true, ..Flags::default() };
    let test = move |h: &History, obs: &mut Obs| -> Res {
        let x = hist::run(h, flags, obs)?;
        let s = &x.stats;
        if s.refused + s.disk_full + s.dir_full + s.partial > 0 {
            obs.nontrivial();
        }
        Ok(())
    };
    let rule = "non-trivial: at least one request had to fail";
    ctx.sub("refusals", 9000, rule, &refusals, &test);
    ctx.sub("brimful", 2500, rule, &brimful, &test);
    ctx.sub("crowded", 2000, rule, &crowded, &test);
    ctx.sub("history", 4000, rule, &|| history_strategy(OPS), &test);
    let _ = sut::scratch;
}
