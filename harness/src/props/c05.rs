//! C05: formatting.

use cbm::disk::DiskError;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::foreign::{build, foreign_strategy, Foreign};
use crate::geom::{kind_strategy, Family, Kind};
use crate::raw::Raw;
use crate::runner::{Ctx, Obs, Res};
use crate::sut::{self, pet, show_err, Sut};
use crate::util::{diff, show_bytes, Rng};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Before {
    Zero(Kind),
    Noise(Kind, u64),
    Disk(Foreign),
    Formatted(Kind, Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    before: Before,
    memory: bool,
    name: Vec<u8>,
    id: [u8; 2],
    again: bool,
}

/// The bytes of a blank disk, block by block.
pub fn blank_image(kind: Kind, name: &[u8], id: [u8; 2], errors: &[u8]) -> Vec<u8> {
    let mut img = vec![0u8; kind.size()];
    let h = kind.header_layout();
    let o = kind.offset(kind.header());
    {
        let s = &mut img[o..o + 256];
        s[0] = kind.first_dir().0;
        s[1] = kind.first_dir().1;
        s[h.disk_format] = h.default_type;
        if let Some(x) = h.double_sided {
            s[x] = 0x80;
        }
        for p in h.padding {
            s[*p] = 0xa0;
        }
        for i in 0..16 {
            s[h.name + i] = *name.get(i).unwrap_or(&0xa0);
        }
        s[h.id] = id[0];
        s[h.id + 1] = id[1];
        s[h.dos_version] = h.default_version;
        s[h.format_type] = h.default_type;
    }
    let d = kind.offset(kind.first_dir());
    img[d + 1] = 0xff;
    let sys = kind.system();
    for t in 1..=kind.dos_tracks() {
        let mut bits = 0u64;
        for s in 0..kind.sectors(t) {
            if !sys.contains(&(t, s)) {
                bits |= 1 << s;
            }
        }
        crate::raw::set_bam(kind, &mut img, t, bits.count_ones() as u8, bits);
    }
    img[kind.data_size()..].copy_from_slice(errors);
    img
}

fn run(c: &Case, obs: &mut Obs) -> Res {
    let (kind, bytes) = match &c.before {
        Before::Zero(k) => (*k, vec![0u8; k.size()]),
        Before::Noise(k, s) => {
            let mut v = vec![0u8; k.size()];
            Rng::new(*s).fill(&mut v);
            (*k, v)
        }
        Before::Disk(f) => {
            obs.label("files-before");
            obs.label_if(f.geos, "geos-before");
            (f.kind, build(f).bytes)
        }
        Before::Formatted(k, n) => {
            let e = vec![7u8; k.size() - k.data_size()];
            (*k, blank_image(*k, n, [1, 2], &e))
        }
    };
    let errors = bytes[kind.data_size()..].to_vec();
    let mut s = Sut::new(kind, &bytes, c.memory)?;
    let r = s.m().write_format(&pet(&c.name), &sut::id(c.id));
    obs.label(match kind.family() {
        Family::F1541 => "1541",
        Family::F1571 => "1571",
        Family::F1581 => "1581",
    });
    if c.name.len() > 16 {
        obs.label("name-too-long");
        obs.nontrivial();
        match r {
            Ok(()) => return Err("an overlong disk name was accepted".into()),
            Err(e) if sut::derr(&e) == Some(DiskError::FilenameTooLong) => {}
            Err(e) => return Err(format!("an overlong name is reported as {}", show_err(&e))),
        }
        if s.image() != bytes {
            return Err("a refused format changed the image".into());
        }
        return Ok(());
    }
    r.map_err(|e| format!("formatting failed: {}", show_err(&e)))?;
    if c.again {
        s.m()
            .write_format(&pet(&c.name), &sut::id(c.id))
            .map_err(|e| format!("formatting again failed: {}", show_err(&e)))?;
    }
    if !matches!(c.before, Before::Zero(_)) {
        obs.nontrivial();
    }
    let img = s.image();
    check_blank(kind, &img, c, &errors)?;

    // What this session, and a fresh one, report.
    for fresh in [false, true].iter() {
        if *fresh {
            s.reopen(true)?;
        }
        let d = s.d();
        let list = d.directory().map_err(|e| show_err(&e))?;
        if !list.is_empty() {
            return Err(format!("a formatted disk lists {} files", list.len()));
        }
        let free = d.blocks_free().map_err(|e| show_err(&e))?;
        if free != kind.blank_free() {
            return Err(format!("{} blocks free instead of {}", free, kind.blank_free()));
        }
        let v = d.validate().map_err(|e| show_err(&e))?;
        if !v.is_empty() {
            return Err(format!("validation reports {:?}", v));
        }
        let mut want = c.name.clone();
        want.resize(16, 0xa0);
        let name = d.name().map(|n| n.as_bytes().to_vec()).unwrap_or_default();
        if name != want {
            return Err(format!("disk name {} instead of {}", show_bytes(&name), show_bytes(&want)));
        }
        let h = d.header().map_err(|e| show_err(&e))?;
        let l = kind.header_layout();
        if [h.disk_id[0], h.disk_id[1]] != c.id
            || h.directory_dos_version != l.default_version
            || h.directory_format_type != l.default_type
            || h.disk_format_type != l.default_type
            || h.geos.is_some()
        {
            return Err(format!(
                "header id {:?} version {:#x} type {:#x} {:#x} geos {}",
                h.disk_id, h.directory_dos_version, h.directory_format_type, h.disk_format_type, h.geos.is_some()
            ));
        }
        let bam = sut::bam_entries(kind, d).map_err(|e| show_err(&e))?;
        let raw = Raw::new(kind, &img);
        for (i, e) in bam.iter().enumerate() {
            let t = i as u8 + 1;
            if *e != (raw.bam_count(t), raw.bam_bits(t)) {
                return Err(format!("map of track {} is {:?}", t, e));
            }
        }
    }
    Ok(())
}

fn check_blank(kind: Kind, img: &[u8], c: &Case, errors: &[u8]) -> Res {
    let raw = Raw::new(kind, img);
    raw.consistency()?;
    if raw.error_table() != errors {
        return Err("formatting changed the error table".into());
    }
    if !raw.entries().map_err(|e| format!("{:?}", e))?.is_empty() {
        return Err("the directory is not empty".into());
    }
    if raw.dir_blocks().map_err(|e| format!("{:?}", e))? != vec![kind.first_dir()] {
        return Err("the directory of a formatted disk has more than one block".into());
    }
    let want = blank_image(kind, &c.name, c.id, errors);
    let (hl, h) = (kind.header_layout(), kind.header());
    let (g, w) = (raw.sector(h).unwrap(), &want[kind.offset(h)..kind.offset(h) + 256]);
    let fields: Vec<usize> = (hl.name..hl.name + 16)
        .chain(hl.id..hl.id + 2)
        .chain(vec![hl.dos_version, hl.format_type, hl.disk_format, 0, 1])
        .chain(hl.double_sided)
        .chain(hl.padding.iter().copied())
        .collect();
    for i in fields {
        if g[i] != w[i] {
            return Err(format!("header byte {:#x} is {:#x} instead of {:#x}", i, g[i], w[i]));
        }
    }
    // Nothing of the previous contents is left.
    for l in kind.locations() {
        let s = raw.sector(l).unwrap();
        if kind.system().contains(&l) {
            let w = &want[kind.offset(l)..kind.offset(l) + 256];
            if kind.family() != Family::F1581 && s != w {
                return Err(format!("block {:?}: {}", l, diff(s, w)));
            }
            if kind.family() == Family::F1581 && !(l == (40, 1) || l == (40, 2)) && s != w {
                return Err(format!("block {:?}: {}", l, diff(s, w)));
            }
        } else if s.iter().any(|b| *b != 0) {
            return Err(format!("block {:?} still has data: {}", l, show_bytes(s)));
        }
    }
    Ok(())
}

pub fn c05(ctx: &mut Ctx) {
    let strat = || {
        let name = prop_oneof![
            6 => crate::util::name_strategy(),
            2 => prop::collection::vec(any::<u8>(), 0..=16),
            2 => prop::collection::vec(any::<u8>(), 16..=18),
            1 => prop::collection::vec(0x41u8..=0x5a, 17..=40),
        ];
        let before = prop_oneof![
            1 => kind_strategy().prop_map(Before::Zero),
            3 => (kind_strategy(), any::<u64>()).prop_map(|(k, s)| Before::Noise(k, s)),
            5 => foreign_strategy(8, 20, true).prop_map(Before::Disk),
            1 => (kind_strategy(), crate::util::name_strategy()).prop_map(|(k, n)| Before::Formatted(k, n)),
        ];
        (before, any::<bool>(), name, any::<[u8; 2]>(), any::<bool>())
            .prop_map(|(before, memory, name, id, again)| Case { before, memory, name, id, again })
            .boxed()
    };
    ctx.sub(
        "format",
        12000,
        "any previous contents, name of up to 40 bytes, any id; non-trivial: the image was not blank zeros before, or the name is unusable",
        &strat,
        &run,
    );
}
