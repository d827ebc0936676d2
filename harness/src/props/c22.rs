//! C22: the cdisk tool.  The real binary is run in a scratch directory.

use std::collections::BTreeMap;
use std::fs;
use std::io::{self, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use cbm::disk::directory::DirectoryEntry;
use cbm::disk::file::{File, FileOps, Scheme as LScheme};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::c10;
use super::c14::{geos_text, info_lines, structure_name, type_name};
use super::c18::{code_for, shown, shown_text};
use super::c21::{disk_text, file_text, text_diff};
use crate::foreign::{build, foreign_strategy, Foreign};
use crate::geom::{kind_strategy, Kind, Loc, ALL_KINDS};
use crate::raw::{Raw, REntry, Scheme};
use crate::runner::{Ctx, Obs, Res};
use crate::sut::{file_type, fresh, pet, show_err, write_chunks, DynDisk, Sut};
use crate::util::{content, diff, len_strategy, show_bytes, trim_name};

// ------------------------------------------------------------------ the texts, from raw bytes

pub fn title(kind: Kind, img: &[u8]) -> String {
    let l = kind.header_layout();
    let o = kind.offset(kind.header());
    let b = &img[o..o + 256];
    let mut t = format!(
        "0 \"{}\" {} {}",
        shown_text(&b[l.name..l.name + 16]),
        shown_text(&b[l.id..l.id + 2]),
        shown_text(&[b[l.dos_version], b[l.format_type]])
    );
    if &b[0xad..0xb8] == b"GEOS format" {
        t += &format!(" ({})", geos_text(&b[0xad..0xbd]));
    }
    t
}

pub fn attr_text(a: u8) -> String {
    let ty = ["del", "seq", "prg", "usr", "rel"].get((a & 0x0f) as usize).copied().unwrap_or("unk");
    let flag = match (a & 0x40 != 0, a & 0x20 != 0) {
        (true, true) => "<@",
        (true, false) => "<",
        (false, true) => "@",
        (false, false) => " ",
    };
    format!("{}{}{}", if a & 0x80 != 0 { ' ' } else { '*' }, ty, flag)
}

pub fn entry_text(e: &REntry, verbose: bool) -> String {
    let mut quoted = format!("\"{}\"", shown_text(&e.name()));
    while quoted.chars().count() < 18 {
        quoted.push(' ');
    }
    let mut size = e.size().to_string();
    while size.len() < 4 {
        size.push(' ');
    }
    let mut s = format!("{} {}{}", size, quoted, attr_text(e.attr()));
    if verbose {
        let b = &e.bytes[0x15..0x1e];
        s += &match e.scheme() {
            Scheme::Linear => " REGULAR".to_string(),
            Scheme::Rel => format!(" REL(side=({},{}) rec_len={})", b[0], b[1], b[2]),
            _ => format!(
                " GEOS({}, {}, {:04}-{:02}-{:02}-{:02}:{:02})",
                structure_name(b[2]),
                type_name(b[3]),
                1900 + b[4] as u32,
                b[5],
                b[6],
                b[7],
                b[8]
            ),
        };
    }
    if e.border {
        s += " (GEOS border)";
    }
    s
}

fn locs_text(l: &[Loc]) -> String {
    l.iter().map(|l| format!("({},{})", l.0, l.1)).collect::<Vec<_>>().join(" ")
}

/// None if the file cannot be followed.
fn details_text(raw: &Raw, e: &REntry, v: u8) -> Option<String> {
    let mut s = String::new();
    if v > 0 {
        s += &format!("Directory position: ({},{}@0x{:02x})\n", e.block.0, e.block.1, e.offset);
    }
    match e.scheme() {
        Scheme::Linear | Scheme::GeosSeq => {
            if v > 0 {
                s += &format!("Occupied sectors: {}\n", locs_text(&raw.chain_locs(e.first()).ok()?));
            }
        }
        Scheme::Rel => {
            let (data, side, _) = raw.rel_parse(e)?;
            if v > 0 {
                s += &format!("Data sectors: {}\nSide sectors: {}\n", locs_text(&data), locs_text(&side));
            }
        }
        Scheme::Vlir => {
            let r = raw.vlir_index(e.first()).ok()?;
            let n = r.iter().rposition(|x| x.is_some()).map_or(r.len(), |i| i + 1);
            if v == 0 {
                s += &format!("VLIR records: {}\n", n);
            } else {
                s += &format!("VLIR record sector: ({},{})\n", e.first().0, e.first().1);
                for (i, x) in r[..n].iter().enumerate() {
                    let c = match x {
                        Some(l) => raw.chain_locs(*l).ok()?,
                        None => vec![],
                    };
                    s += &format!("Record {} sectors: {}\n", i, locs_text(&c));
                }
                if n < r.len() {
                    s += &format!("{} unavailable records follow...\n", r.len() - n);
                }
            }
        }
    }
    if matches!(e.scheme(), Scheme::GeosSeq | Scheme::Vlir) && e.extra().0 != 0 {
        s += "GEOS info block:\n";
        for l in info_lines(raw.sector(e.extra())?) {
            s += &l;
            s.push('\n');
        }
    }
    Some(s)
}

fn dir_text(kind: Kind, img: &[u8], v: u8) -> Option<String> {
    let raw = Raw::new(kind, img);
    let mut s = title(kind, img);
    s.push('\n');
    for e in raw.entries().ok()? {
        s += &entry_text(&e, v > 0);
        s.push('\n');
        if v > 1 {
            s += &details_text(&raw, &e, v - 2)?;
            s.push('\n');
        }
    }
    s += &format!("{} blocks free.\n", raw.blocks_free());
    Some(s)
}

fn bam_text(kind: Kind, img: &[u8]) -> String {
    let raw = Raw::new(kind, img);
    let mut s = String::new();
    for t in 1..=kind.dos_tracks() {
        s += &format!("t{:02}: [{:02}/{:02}] ", t, raw.bam_count(t), kind.sectors(t));
        s.extend((0..kind.sectors(t)).map(|x| if raw.is_free((t, x)) { '.' } else { 'x' }));
        s.push('\n');
    }
    s += &format!("{} blocks free.\n", raw.blocks_free());
    s
}

// ------------------------------------------------------------------ commands

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Sel {
    /// One of the files that can be named on a command line.
    Nth(usize),
    Text(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Src {
    Stdin(usize, u64),
    Host(usize, u64),
    /// A host file called like the file on the disk, the destination being left out.
    SameName(usize, u64),
    Missing,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Dst {
    Default,
    New,
    Existing,
    Stdout,
    /// A directory that is not there.
    Nowhere,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Cmd {
    Create,
    Format { name: String, id: String },
    Write { src: Src, name: Sel, ty: Option<u8> },
    Append { src: Src, name: Sel },
    Read { name: Sel, dst: Dst },
    GeosRead { name: Sel, dst: Dst },
    Rename { name: Sel, to: Sel },
    Delete { name: Sel },
    Dir { v: u8, style: u8 },
    BamShow,
    BamEdit { track: Option<u8>, sector: Option<u8>, allocate: bool },
    /// An argument that is not a track or sector number.
    BamBad { which: u8, allocate: bool },
    Validate,
    Dump { name: Option<Sel> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Start {
    Image(Foreign),
    /// Formatted, but otherwise damaged in ways that validation reports.
    Damaged(c10::Case),
    /// An image of zeros, as cdisk makes it.
    Zero(Kind),
    /// No image file.
    Nothing,
    /// A file of some other size.
    Odd(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    start: Start,
    /// 0 lower case, 1 upper case, 2 none, 3 unknown, 4 in a subdirectory.
    ext: u8,
    kind: Kind,
    cmds: Vec<Cmd>,
}

fn text_name() -> BoxedStrategy<String> {
    let known = (0x20u8..=255).prop_map(|b| (code_for(shown(b)), b)).prop_map(|(c, _)| shown(c));
    let c = prop_oneof![
        8 => prop::char::range('a', 'z'),
        2 => prop::char::range('A', 'Z'),
        2 => prop::char::range('0', '9'),
        2 => Just(' '),
        1 => prop_oneof![Just('.'), Just('*'), Just('?'), Just('"'), Just('\''), Just(','), Just(':'), Just('$')],
        2 => known,
    ];
    prop_oneof![
        5 => prop::collection::vec(prop::char::range('a', 'd').boxed(), 1..=2),
        5 => prop::collection::vec(c.clone(), 1..=16),
        2 => prop::collection::vec(c.clone(), 15..=16),
        1 => prop::collection::vec(c, 17..=20),
    ]
    .prop_map(|v| usable(v.into_iter().collect()))
    .boxed()
}

/// A text that can be given as an argument and used as a host file name.
fn usable(s: String) -> String {
    let mut t: String =
        s.chars().map(|c| if c == '/' || c == '\u{fffd}' || c == '\0' { 'x' } else { c }).collect();
    if t.starts_with('-') || t.starts_with('.') || t.starts_with('\u{a0}') {
        t = format!("x{}", t.chars().skip(1).collect::<String>());
    }
    while t.ends_with('\u{a0}') {
        t.pop();
    }
    if t.is_empty() {
        t.push('x');
    }
    t
}

fn sel() -> BoxedStrategy<Sel> {
    prop_oneof![6 => (0usize..20).prop_map(Sel::Nth), 1 => text_name().prop_map(Sel::Text)].boxed()
}

fn new_sel() -> BoxedStrategy<Sel> {
    prop_oneof![1 => (0usize..20).prop_map(Sel::Nth), 6 => text_name().prop_map(Sel::Text)].boxed()
}

fn src() -> BoxedStrategy<Src> {
    let len = prop_oneof![
        6 => len_strategy(20),
        1 => (0usize..5, 0usize..40, 0usize..300).prop_map(|(a, b, c)| (a * 40 + b) * 254 + c),
        1 => (150_000usize..900_000),
    ]
    .boxed();
    prop_oneof![
        3 => (len.clone(), any::<u64>()).prop_map(|(l, s)| Src::Stdin(l, s)),
        3 => (len.clone(), any::<u64>()).prop_map(|(l, s)| Src::Host(l, s)),
        2 => (len, any::<u64>()).prop_map(|(l, s)| Src::SameName(l, s)),
        1 => Just(Src::Missing),
    ]
    .boxed()
}

fn dst() -> BoxedStrategy<Dst> {
    prop_oneof![
        3 => Just(Dst::Default),
        2 => Just(Dst::New),
        2 => Just(Dst::Existing),
        2 => Just(Dst::Stdout),
        1 => Just(Dst::Nowhere),
    ]
    .boxed()
}

fn cmd_strategy() -> BoxedStrategy<Cmd> {
    let part = |max: u8| {
        prop_oneof![1 => Just(None), 4 => (0..=max).prop_map(Some), 2 => (0..=20u8.min(max)).prop_map(Some)]
    };
    prop_oneof![
        1 => Just(Cmd::Create),
        1 => (text_name(), "[a-zA-Z0-9 .]{0,3}").prop_map(|(name, id)| Cmd::Format { name, id }),
        6 => (src(), new_sel(), prop::option::of(1u8..=3)).prop_map(|(src, name, ty)| Cmd::Write { src, name, ty }),
        4 => (src(), sel()).prop_map(|(src, name)| Cmd::Append { src, name }),
        4 => (sel(), dst()).prop_map(|(name, dst)| Cmd::Read { name, dst }),
        3 => (sel(), dst()).prop_map(|(name, dst)| Cmd::GeosRead { name, dst }),
        3 => (sel(), new_sel()).prop_map(|(name, to)| Cmd::Rename { name, to }),
        3 => sel().prop_map(|name| Cmd::Delete { name }),
        4 => (0u8..=5, 0u8..3).prop_map(|(v, style)| Cmd::Dir { v, style }),
        2 => Just(Cmd::BamShow),
        4 => (part(80), part(39), any::<bool>())
            .prop_map(|(track, sector, allocate)| Cmd::BamEdit { track: track.map(|t| t.max(1)), sector, allocate }),
        1 => (any::<u8>(), any::<bool>()).prop_map(|(which, allocate)| Cmd::BamBad { which, allocate }),
        3 => Just(Cmd::Validate),
        1 => Just(Cmd::Dump { name: None }),
        2 => sel().prop_map(|s| Cmd::Dump { name: Some(s) }),
    ]
    .boxed()
}

fn case_strategy() -> BoxedStrategy<Case> {
    let start = prop_oneof![
        14 => foreign_strategy(8, 8, false).prop_map(Start::Image),
        2 => c10::case_strategy(3, false).prop_map(Start::Damaged),
        1 => kind_strategy().prop_map(Start::Zero),
        1 => Just(Start::Nothing),
        1 => prop_oneof![0usize..2000, (0usize..8, 0usize..3).prop_map(|(k, d)| ALL_KINDS[k].size() + d - 1)]
            .prop_map(Start::Odd),
    ];
    (start, 0u8..5, kind_strategy(), prop::collection::vec(cmd_strategy(), 1..=8))
        .prop_map(|(start, ext, kind, cmds)| Case { start, ext, kind, cmds })
        .boxed()
}

fn codes(s: &str) -> Vec<u8> {
    s.chars().map(code_for).collect()
}

/// Whether a stored name can be given on a command line (and used as a host file name).
fn addressable(n: &[u8]) -> bool {
    !n.is_empty()
        && n.iter().all(|b| shown(*b) != '\u{fffd}' && code_for(shown(*b)) == *b)
        && usable(shown_text(n)) == shown_text(n)
}

struct World {
    dir: PathBuf,
    /// The image file, relative to the directory.
    image: String,
    kind: Option<Kind>,
    img: Option<Vec<u8>>,
    host: BTreeMap<String, Vec<u8>>,
}

struct Out {
    code: Option<i32>,
    stdout: Vec<u8>,
    stderr: String,
}

fn binary() -> PathBuf {
    let mut p = std::env::current_exe().expect("current_exe");
    p.set_file_name("cdisk");
    p
}

fn run_tool(w: &World, args: &[String], stdin: &[u8]) -> Result<Out, String> {
    let side = fresh("");
    let file = |s: &str| PathBuf::from(format!("{}{}", side.display(), s));
    let (i, o, e) = (file(".in"), file(".out"), file(".err"));
    fs::write(&i, stdin).expect("write scratch file");
    let mut child = Command::new(binary())
        .args(args)
        .current_dir(&w.dir)
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::from(fs::File::open(&i).expect("open scratch file")))
        .stdout(Stdio::from(fs::File::create(&o).expect("create scratch file")))
        .stderr(Stdio::from(fs::File::create(&e).expect("create scratch file")))
        .spawn()
        .unwrap_or_else(|e| {
            eprintln!("cannot run {}: {}", binary().display(), e);
            std::process::exit(3);
        });
    let start = Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().expect("wait for cdisk") {
            break Some(s);
        }
        let t = start.elapsed();
        let big = |p: &PathBuf| fs::metadata(p).map_or(false, |m| m.len() > 64 << 20);
        if t > Duration::from_secs(40) || big(&o) || big(&e) {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(if t < Duration::from_millis(5) { Duration::from_micros(100) } else { Duration::from_millis(1) });
    };
    let out = Out {
        code: status.and_then(|s| s.code()),
        stdout: fs::read(&o).expect("read scratch file"),
        stderr: String::from_utf8_lossy(&fs::read(&e).expect("read scratch file")).into_owned(),
    };
    for p in &[i, o, e] {
        let _ = fs::remove_file(p);
    }
    if status.is_none() {
        return Err("does not finish".to_string());
    }
    if out.stderr.contains("panicked at") || out.code.map_or(true, |c| c == 101) {
        return Err(format!("crashes: {}", out.stderr.trim()));
    }
    Ok(out)
}

/// What the library does for a command: the output, the bytes for a host file, or an error.
enum Done {
    Text(String),
    Bytes(Vec<u8>),
    Lines(Vec<String>),
    Nothing,
}

fn lib(d: &mut DynDisk, cmd: &Cmd, name: &[u8], to: &[u8], data: &[u8]) -> io::Result<Done> {
    Ok(match cmd {
        Cmd::Create | Cmd::BamBad { .. } => Done::Nothing,
        Cmd::Format { id, .. } => {
            let mut c = codes(id);
            c.resize(2, 0);
            d.write_format(&pet(name), &crate::sut::id([c[0], c[1]]))?;
            Done::Nothing
        }
        Cmd::Write { ty, .. } => {
            let f = d.create_file(&pet(name), file_type(ty.unwrap_or(1)), LScheme::Linear)?;
            let mut w = f.writer()?;
            let r = write_chunks(&mut *w, data, 8192);
            let fl = w.flush();
            r?;
            fl?;
            Done::Nothing
        }
        Cmd::Append { .. } => {
            let f = d.open_file(&pet(name))?;
            let mut w = f.writer()?;
            let r = write_chunks(&mut *w, data, 8192);
            let fl = w.flush();
            r?;
            fl?;
            Done::Nothing
        }
        Cmd::Read { .. } => {
            let mut v = vec![];
            crate::util::drain(&mut *d.open_file(&pet(name))?.reader()?, 1 << 20, &mut v)?;
            Done::Bytes(v)
        }
        Cmd::GeosRead { .. } => {
            let mut v = vec![];
            match d.open_file(&pet(name))? {
                File::GEOSVLIR(f) | File::GEOSSequential(f) => crate::util::drain(&mut f.reader()?, 256 << 20, &mut v)?,
                _ => return Err(io::Error::new(io::ErrorKind::InvalidInput, "not a GEOS file")),
            };
            Done::Bytes(v)
        }
        Cmd::Rename { .. } => {
            d.rename(&pet(name), &pet(to))?;
            Done::Nothing
        }
        Cmd::Delete { .. } => {
            d.open_file(&pet(name))?.delete()?;
            Done::Nothing
        }
        Cmd::Dir { v, .. } => Done::Text(lib_dir(d, *v)?),
        Cmd::BamShow => Done::Text(format!("{:?}", d.bam()?.borrow())),
        Cmd::BamEdit { .. } => {
            // The effect is computed from the raw map.
            d.bam()?;
            Done::Nothing
        }
        Cmd::Validate => Done::Lines(d.validate()?.iter().map(|e| e.to_string()).collect()),
        Cmd::Dump { name: sel } => {
            let mut v = vec![];
            match sel {
                Some(_) => d.open_file(&pet(name))?.dump(&mut v)?,
                None => d.dump(&mut v)?,
            }
            Done::Text(String::from_utf8_lossy(&v).into_owned())
        }
    })
}

/// The listing as cdisk composes it from the library's texts.
fn lib_dir(d: &DynDisk, v: u8) -> io::Result<String> {
    let mut s = vec![];
    writeln!(s, "{}", d)?;
    for e in d.iter() {
        let e: DirectoryEntry = e?;
        if v > 0 {
            writeln!(s, "{:#}", e)?;
        } else {
            writeln!(s, "{}", e)?;
        }
        if v > 1 {
            d.open_file_from_entry(&e)?.details(&mut s, v as usize - 2)?;
            writeln!(s)?;
        }
    }
    writeln!(s, "{} blocks free.", d.bam()?.borrow().blocks_free())?;
    Ok(String::from_utf8_lossy(&s).into_owned())
}

/// Reports about shared blocks name some of the files involved.
fn sort_reports(mut l: Vec<String>) -> Vec<String> {
    for x in l.iter_mut() {
        if let Some(i) = x.find(" including at least") {
            x.truncate(i);
        }
    }
    l.sort();
    l
}

fn read_tree(dir: &Path, at: &str, out: &mut BTreeMap<String, Vec<u8>>) {
    for e in fs::read_dir(dir.join(at)).expect("read scratch directory") {
        let e = e.expect("read scratch directory");
        let n = e.file_name().into_string().expect("file name");
        let n = if at.is_empty() { n } else { format!("{}/{}", at, n) };
        if e.file_type().expect("file type").is_dir() {
            out.insert(format!("{}/", n), vec![]);
            read_tree(dir, &n, out);
        } else {
            out.insert(n.clone(), fs::read(dir.join(&n)).expect("read scratch file"));
        }
    }
}

impl World {
    fn new(c: &Case) -> World {
        let dir = fresh(".dir");
        fs::create_dir(&dir).expect("create scratch directory");
        let (kind, img) = match &c.start {
            Start::Image(f) => {
                let b = build(f);
                (Some(b.kind), Some(b.bytes))
            }
            Start::Damaged(d) => {
                let b = build(&d.image);
                let mut img = b.bytes.clone();
                for x in &d.damage {
                    c10::damage(&b, &mut img, x);
                }
                (Some(b.kind), Some(img))
            }
            Start::Zero(k) => (Some(*k), Some(vec![0; k.size()])),
            Start::Nothing => (None, None),
            Start::Odd(n) => (None, Some(vec![0; *n])),
        };
        let ext = kind.unwrap_or(c.kind).extension();
        let image = match c.ext {
            0 => format!("image-under-test.{}", ext),
            1 => format!("image-under-test.{}", ext.to_uppercase()),
            2 => "image-under-test-without-extension".to_string(),
            3 => "image-under-test.img".to_string(),
            _ => format!("image-subdirectory/image-under-test.{}", ext),
        };
        let mut w = World { dir, image, kind, img, host: BTreeMap::new() };
        if c.ext == 4 {
            fs::create_dir(w.dir.join("image-subdirectory")).expect("create scratch directory");
            w.host.insert("image-subdirectory/".to_string(), vec![]);
        }
        if let Some(i) = &w.img {
            fs::write(w.dir.join(&w.image), i).expect("write scratch file");
            // An odd size might be an accepted one.
            if w.kind.is_none() {
                w.kind = ALL_KINDS.iter().copied().find(|k| k.size() == i.len() && (c.ext == 2 || c.ext == 3 || k.extension() == ext));
            }
        }
        w
    }

    fn find(&self, name: &[u8]) -> Option<REntry> {
        let raw = Raw::new(self.kind?, self.img.as_ref()?);
        raw.entries().ok()?.into_iter().find(|e| e.name() == name)
    }

    fn text_of(&self, s: &Sel) -> String {
        let names: Vec<Vec<u8>> = match (self.kind, &self.img) {
            (Some(k), Some(i)) => Raw::new(k, i)
                .entries()
                .map(|v| v.iter().map(|e| e.name()).filter(|n| addressable(n)).collect())
                .unwrap_or_default(),
            _ => vec![],
        };
        match s {
            Sel::Text(t) => t.clone(),
            Sel::Nth(_) if names.is_empty() => "nothing".to_string(),
            Sel::Nth(n) => shown_text(&names[n % names.len()]),
        }
    }

    fn put_host(&mut self, name: &str, data: Vec<u8>) {
        fs::write(self.dir.join(name), &data).expect("write scratch file");
        self.host.insert(name.to_string(), data);
    }

    fn step(&mut self, cmd: &Cmd, obs: &mut Obs) -> Result<bool, String> {
        let mut args: Vec<String> = vec![self.image.clone()];
        let mut push = |l: &[&str]| args.extend(l.iter().map(|s| s.to_string()));
        let mut name = String::new();
        let mut to = String::new();
        let mut data = vec![];
        let mut stdin = vec![];
        let mut out_to: Option<String> = None; // host file; None is standard output
        let mut source_missing = false;
        let mut nowhere = false;
        match cmd {
            Cmd::Create => push(&["create"]),
            Cmd::Format { name: n, id } => {
                name = n.clone();
                // An empty argument is an id of no characters.
                push(&["format", n, id]);
            }
            Cmd::Write { src, name: n, .. } | Cmd::Append { src, name: n } => {
                let write = matches!(cmd, Cmd::Write { .. });
                push(&[if write { "write" } else { "append" }]);
                name = self.text_of(n);
                if let Cmd::Write { ty: Some(t), .. } = cmd {
                    let t = ["seq", "prg", "usr"][*t as usize - 1];
                    match name.len() % 3 {
                        0 => push(&["-t", t]),
                        1 => push(&["--type", t]),
                        _ => push(&[&format!("--type={}", t)]),
                    }
                }
                match src {
                    Src::Stdin(l, s) => {
                        data = content(*l, *s);
                        stdin = data.clone();
                        push(&["-", &name]);
                    }
                    Src::Host(l, s) => {
                        data = content(*l, *s);
                        self.put_host("host-file-to-be-written", data.clone());
                        push(&["host-file-to-be-written", &name]);
                    }
                    Src::SameName(l, s) => {
                        data = content(*l, *s);
                        let n = name.clone();
                        self.put_host(&n, data.clone());
                        push(&[&name]);
                    }
                    Src::Missing => {
                        source_missing = true;
                        push(&["host-file-that-is-not-there", &name]);
                    }
                }
            }
            Cmd::Read { name: n, dst } | Cmd::GeosRead { name: n, dst } => {
                name = self.text_of(n);
                push(&[if matches!(cmd, Cmd::Read { .. }) { "read" } else { "geosread" }, &name]);
                match dst {
                    Dst::Default => out_to = Some(name.clone()),
                    Dst::New => out_to = Some("host-file-read".to_string()),
                    Dst::Existing => {
                        self.put_host("host-file-existing", content(5000, 7));
                        out_to = Some("host-file-existing".to_string());
                    }
                    Dst::Stdout => push(&["-"]),
                    Dst::Nowhere => {
                        nowhere = true;
                        push(&["no-such-directory/host-file"]);
                    }
                }
                if matches!(dst, Dst::New | Dst::Existing) {
                    push(&[out_to.as_ref().unwrap()]);
                }
            }
            Cmd::Rename { name: n, to: t } => {
                name = self.text_of(n);
                to = self.text_of(t);
                push(&["rename", &name, &to]);
            }
            Cmd::Delete { name: n } => {
                name = self.text_of(n);
                push(&["delete", &name]);
            }
            Cmd::Dir { v, style } => {
                push(&["dir"]);
                match style {
                    0 if *v > 0 => push(&[&format!("-{}", "v".repeat(*v as usize))]),
                    1 => (0..*v).for_each(|_| push(&["-v"])),
                    _ => (0..*v).for_each(|_| push(&["--verbose"])),
                }
            }
            Cmd::BamShow => push(&["bam", "show"]),
            Cmd::BamEdit { track, sector, allocate } => {
                let f = |x: &Option<u8>| x.map_or("all".to_string(), |n| n.to_string());
                push(&["bam", if *allocate { "allocate" } else { "free" }, &f(track), &f(sector)]);
            }
            Cmd::BamBad { which, allocate } => {
                const BAD: [(&str, &str); 9] = [
                    ("0", "0"), ("81", "0"), ("1", "40"), ("256", "0"), ("x", "1"), ("1", "ALL"), ("1", ""), ("17", "+ 1"), ("257", "all"),
                ];
                let (t, s) = BAD[*which as usize % BAD.len()];
                push(&["bam", if *allocate { "allocate" } else { "free" }, t, s]);
            }
            Cmd::Validate => push(&["validate"]),
            Cmd::Dump { name: n } => {
                push(&["dump"]);
                if let Some(n) = n {
                    name = self.text_of(n);
                    push(&[&name]);
                }
            }
        }
        let shown_args: Vec<String> = args[1..].to_vec();
        let ctx = |m: String| format!("cdisk {} {:?}: {}", self.image, shown_args, m);

        // What should happen.
        let before = self.img.clone();
        let mut want_img = before.clone();
        let mut usage = false;
        let want: Result<Done, Option<String>> = if let Cmd::BamBad { .. } = cmd {
            usage = true;
            Err(None)
        } else if let Cmd::Create = cmd {
            if before.is_some() {
                Err(None)
            } else {
                let known = Path::new(&self.image).extension().and_then(|e| e.to_str()).map(|e| e.to_lowercase());
                let k = match known.as_ref().map(|s| s.as_str()) {
                    Some("d71") => Kind::D71,
                    Some("d81") => Kind::D81,
                    _ => Kind::D64,
                };
                want_img = Some(vec![0; k.size()]);
                self.kind = Some(k);
                Ok(match known.as_ref().map(|s| s.as_str()) {
                    Some("d64") | Some("d71") | Some("d81") => Done::Nothing,
                    _ => Done::Text("Unknown file extension.  Assuming D64...\n".to_string()),
                })
            }
        } else if source_missing || self.kind.is_none() || before.is_none() {
            Err(None)
        } else {
            let kind = self.kind.unwrap();
            match Sut::file(kind, before.as_ref().unwrap(), true) {
                Err(_) => Err(None),
                Ok(mut s) => {
                    let r = lib(s.m(), cmd, &codes(&name), &codes(&to), &data);
                    want_img = Some(s.image());
                    match r {
                        Ok(d) => Ok(d),
                        Err(e) => Err(Some(format!("Error: {}\n", e))),
                    }
                }
            }
        };
        let want = match (want, cmd) {
            (Ok(Done::Nothing), Cmd::BamEdit { track, sector, allocate }) => {
                let kind = self.kind.unwrap();
                let img = want_img.as_mut().unwrap();
                let mut any = false;
                for t in 1..=kind.dos_tracks() {
                    if track.map_or(false, |x| x != t) {
                        continue;
                    }
                    let mut bits = Raw::new(kind, img).bam_bits(t);
                    let mut here = false;
                    for s in 0..kind.sectors(t) {
                        if sector.map_or(true, |x| x == s) {
                            here = true;
                            if *allocate {
                                bits &= !(1 << s);
                            } else {
                                bits |= 1 << s;
                            }
                        }
                    }
                    if here {
                        crate::raw::set_bam(kind, img, t, bits.count_ones() as u8, bits);
                        any = true;
                    }
                }
                if any {
                    Ok(Done::Nothing)
                } else {
                    Err(None)
                }
            }
            (_, Cmd::Read { .. }) | (_, Cmd::GeosRead { .. }) if nowhere => Err(None),
            (w, _) => w,
        };

        let o = run_tool(self, &args, &stdin).map_err(|m| ctx(m))?;

        // The image and the host files.
        let got = fs::read(self.dir.join(&self.image)).ok();
        match (&got, &want_img) {
            (None, None) => (),
            (Some(g), Some(w)) if g == w => (),
            (Some(g), Some(w)) => {
                return Err(ctx(format!(
                    "the image is not what the operation makes of it ({}): {}",
                    if before.as_ref() == Some(w) { "it should be unchanged" } else { "it should change" },
                    diff(g, w)
                )))
            }
            (g, _) => return Err(ctx(format!("the image {} afterwards", if g.is_some() { "exists" } else { "is gone" }))),
        }
        let reading = matches!(cmd, Cmd::Read { .. } | Cmd::GeosRead { .. });
        let mut stdout = o.stdout.clone();
        if let (true, Ok(Done::Bytes(b))) = (reading, &want) {
            match &out_to {
                Some(n) => {
                    self.host.insert(n.clone(), b.clone());
                }
                None => {
                    if stdout != *b {
                        return Err(ctx(format!("standard output: {}", diff(&stdout, b))));
                    }
                    stdout.clear();
                }
            }
        }
        let clean = match (self.kind, &before) {
            (Some(k), Some(b)) => intact(k, b),
            _ => true,
        };
        if let (true, Err(_), Some(n), false) = (reading, &want, &out_to, clean) {
            // A damaged file may be delivered up to the damage.
            match fs::read(self.dir.join(n)) {
                Ok(b) => drop(self.host.insert(n.clone(), b)),
                Err(_) => drop(self.host.remove(n)),
            }
        }
        let mut tree = BTreeMap::new();
        read_tree(&self.dir, "", &mut tree);
        tree.remove(&self.image);
        if tree != self.host {
            for n in tree.keys().chain(self.host.keys()) {
                match (tree.get(n), self.host.get(n)) {
                    (Some(a), Some(b)) if a != b => return Err(ctx(format!("host file {:?}: {}", n, diff(a, b)))),
                    (Some(_), None) => return Err(ctx(format!("host file {:?} appeared", n))),
                    (None, Some(_)) => return Err(ctx(format!("host file {:?} is missing", n))),
                    _ => (),
                }
            }
        }

        // What it says.
        let text = String::from_utf8_lossy(&stdout).into_owned();
        let failed = match &want {
            Ok(Done::Lines(l)) => !l.is_empty(),
            Ok(_) => false,
            Err(_) => true,
        };
        if failed && o.stderr.is_empty() {
            return Err(ctx("fails without a word on standard error".to_string()));
        }
        if failed && o.code == Some(0) {
            return Err(ctx(format!("fails with {:?}, but its exit status reports success", o.stderr)));
        }
        if !failed && (!o.stderr.is_empty() || o.code != Some(0)) {
            return Err(ctx(format!("should succeed; exit code {:?}, standard error {:?}", o.code, o.stderr)));
        }
        match &want {
            Err(Some(e)) if o.stderr != *e => {
                return Err(ctx(format!("standard error is {:?} instead of {:?}", o.stderr, e)))
            }
            Err(_) if !usage && !o.stderr.starts_with("Error: ") => {
                return Err(ctx(format!("standard error is {:?}", o.stderr)))
            }
            Ok(Done::Lines(l)) => {
                let kind = self.kind.unwrap();
                let img = before.as_ref().unwrap();
                if let Ok(n) = c10::expected(kind, img).map(|f| f.len()) {
                    if n != l.len() {
                        return Err(ctx(format!("{} findings instead of {}", l.len(), n)));
                    }
                }
                let got = sort_reports(text.lines().map(|s| s.to_string()).collect());
                let w = if l.is_empty() {
                    vec!["Disk validates successfully.".to_string()]
                } else {
                    sort_reports(l.clone())
                };
                if got != w {
                    return Err(ctx(format!("reports {:?} instead of {:?}", got, w)));
                }
                let e = format!("Error: {} errors found during validation.\n", l.len());
                if !l.is_empty() && o.stderr != e {
                    return Err(ctx(format!("standard error is {:?}", o.stderr)));
                }
            }
            Ok(Done::Text(t)) if *t != text => return Err(ctx(format!("output: {}", text_diff(&text, t)))),
            Ok(Done::Nothing) | Ok(Done::Bytes(_)) if !text.is_empty() => {
                return Err(ctx(format!("prints {:?}", text)))
            }
            // A listing may get some way before it fails.
            Err(_) if !text.is_empty() && !usage && clean && !matches!(cmd, Cmd::Dir { .. } | Cmd::Dump { .. } | Cmd::Create) => {
                return Err(ctx(format!("fails, but prints {:?}", text)))
            }
            _ => (),
        }

        // What the operation means, from the raw image.
        if let (Some(kind), Some(b), Some(a)) = (self.kind, &before, &got) {
            if !matches!(cmd, Cmd::Create) && !usage {
                meaning(kind, b, a, cmd, &codes(&name), &codes(&to), &data, source_missing || nowhere, &want, &text)
                    .map_err(|m| ctx(m))?;
            }
        }
        let changed = got != before;
        self.img = got;
        obs.label(match cmd {
            Cmd::Create => "create",
            Cmd::Format { .. } => "format",
            Cmd::Write { .. } => "write",
            Cmd::Append { .. } => "append",
            Cmd::Read { .. } => "read",
            Cmd::GeosRead { .. } => "geosread",
            Cmd::Rename { .. } => "rename",
            Cmd::Delete { .. } => "delete",
            Cmd::Dir { .. } => "dir",
            Cmd::BamShow => "bam-show",
            Cmd::BamEdit { .. } => "bam-edit",
            Cmd::BamBad { .. } => "bad-argument",
            Cmd::Validate => "validate",
            Cmd::Dump { name: None } => "dump",
            Cmd::Dump { name: Some(_) } => "dump-file",
        });
        obs.label_if(failed, "failing-command");
        Ok(changed || !failed && !text.is_empty() || reading && !failed)
    }
}

/// Nothing is wrong with the disk, and no two files have the same name.
fn intact(kind: Kind, img: &[u8]) -> bool {
    let raw = Raw::new(kind, img);
    let names: Vec<Vec<u8>> = match raw.entries() {
        Ok(v) => v.iter().map(|e| e.name()).collect(),
        Err(_) => return false,
    };
    let distinct: std::collections::BTreeSet<&Vec<u8>> = names.iter().collect();
    distinct.len() == names.len()
        && raw.consistency().is_ok()
        && c10::expected(kind, img).map_or(false, |f| f.is_empty())
}

/// Judge an operation on the raw bytes, without the library.
fn meaning(
    kind: Kind,
    before: &[u8],
    after: &[u8],
    cmd: &Cmd,
    name: &[u8],
    to: &[u8],
    data: &[u8],
    host_trouble: bool,
    want: &Result<Done, Option<String>>,
    text: &str,
) -> Res {
    let rb = Raw::new(kind, before);
    let ra = Raw::new(kind, after);
    let clean = intact(kind, before);
    let (eb, ea) = match (rb.entries(), ra.entries()) {
        (Ok(b), Ok(a)) => (b, a),
        _ => return Ok(()),
    };
    if rb.slots().map_or(true, |s| s.is_empty()) || !clean {
        // Not formatted, or damaged; what the library makes of that is C10 and C11.
        return Ok(());
    }
    let ok = want.is_ok();
    let find = |v: &[REntry], n: &[u8]| v.iter().find(|e| e.name() == n).cloned();
    let must = |fail: bool, why: &str| -> Res {
        if fail == ok {
            Err(format!("{} although {}", if ok { "succeeds" } else { "fails" }, why))
        } else {
            Ok(())
        }
    };
    let others = |skip: &[u8]| -> Res {
        for e in &eb {
            if e.name() == skip {
                continue;
            }
            match find(&ea, &e.name()) {
                Some(x) if x.bytes[2..] == e.bytes[2..] => (),
                Some(_) => return Err(format!("the entry of {} changed", show_bytes(&e.name()))),
                None => return Err(format!("{} is gone", show_bytes(&e.name()))),
            }
            for l in rb.occupied(e).unwrap_or_default() {
                if rb.sector(l) != ra.sector(l) {
                    return Err(format!("block {:?} of {} changed", l, show_bytes(&e.name())));
                }
            }
        }
        Ok(())
    };
    let here = find(&eb, name);
    match cmd {
        Cmd::Write { ty, .. } => {
            if host_trouble || here.is_some() || name.len() > 16 {
                must(true, "the name is taken or too long, or there is no source")?;
                if before != after {
                    return Err("a refused write changed the image".to_string());
                }
                return Ok(());
            }
            others(name)?;
            let need = crate::foreign::blocks_for(data.len());
            let free = rb.free_data().len();
            if ok && need > free || !ok && need < free && eb.len() < 60 {
                return Err(format!("{} blocks with {} free: succeeded {}", need, free, ok));
            }
            if let Some(e) = find(&ea, name) {
                if e.attr() != 0x80 | ty.unwrap_or(1) {
                    return Err(format!("attribute byte {:02x}", e.attr()));
                }
                let got = ra.chain_data(e.first()).map_err(|e| format!("{:?}", e))?;
                if ok && got != data {
                    return Err(format!("contents: {}", diff(&got, data)));
                }
                if !data.starts_with(&got) {
                    return Err("the part that fits is wrong".to_string());
                }
                if !ok && got.len() < free * 254 {
                    return Err(format!("only {} bytes kept with {} blocks free", got.len(), free));
                }
            } else if ok {
                return Err("the file is not there".to_string());
            }
        }
        Cmd::Append { .. } => {
            let linear = here.as_ref().map_or(false, |e| e.scheme() == Scheme::Linear);
            if host_trouble || !linear {
                must(true, "there is no such linear file, or no source")?;
                if before != after {
                    return Err("a refused append changed the image".to_string());
                }
                return Ok(());
            }
            others(name)?;
            let old = rb.chain_data(here.unwrap().first()).map_err(|e| format!("{:?}", e))?;
            let e = find(&ea, name).ok_or("the file is gone")?;
            let got = ra.chain_data(e.first()).map_err(|e| format!("{:?}", e))?;
            let full: Vec<u8> = old.iter().chain(data).copied().collect();
            if ok && got != full {
                return Err(format!("contents: {}", diff(&got, &full)));
            }
            if !full.starts_with(&got) || got.len() < old.len() {
                return Err("the part that fits is wrong".to_string());
            }
            if !ok && ra.free_data().len() > 1 {
                return Err(format!("runs out of space with {} blocks free", ra.free_data().len()));
            }
        }
        Cmd::Read { .. } | Cmd::GeosRead { .. } => {
            let geos = matches!(cmd, Cmd::GeosRead { .. });
            let can = here.as_ref().map_or(false, |e| match e.scheme() {
                Scheme::Linear => !geos,
                // The Convert format needs an info block.
                Scheme::GeosSeq => !geos || e.extra().0 != 0,
                Scheme::Vlir => geos && e.extra().0 != 0,
                Scheme::Rel => false,
            });
            must(host_trouble || !can, "of what is on the disk")?;
            if let (false, Ok(Done::Bytes(b))) = (geos, want) {
                let data = rb.chain_data(here.unwrap().first()).map_err(|e| format!("{:?}", e))?;
                if *b != data {
                    return Err(format!("read: {}", diff(b, &data)));
                }
            }
        }
        Cmd::Rename { .. } => {
            let fail = here.is_none() || find(&eb, to).is_some() || to.len() > 16;
            must(fail, "of the names on the disk")?;
            let mut img = before.to_vec();
            if !fail {
                let e = here.unwrap();
                let mut n = to.to_vec();
                n.resize(16, 0xa0);
                let at = kind.offset(e.block) + e.offset + 5;
                img[at..at + 16].copy_from_slice(&n);
            }
            if img != after {
                return Err(format!("rename: {}", diff(after, &img)));
            }
        }
        Cmd::Delete { .. } => {
            must(here.is_none(), "of the names on the disk")?;
            match here {
                None if before != after => return Err("a refused delete changed the image".to_string()),
                None => (),
                Some(e) => {
                    others(name)?;
                    if find(&ea, name).is_some() {
                        return Err("the file is still there".to_string());
                    }
                    let mut want = rb.free_set();
                    want.extend(rb.occupied(&e).unwrap_or_default().into_iter().filter(|l| kind.covered(*l)));
                    if want != ra.free_set() {
                        return Err("the wrong blocks were freed".to_string());
                    }
                }
            }
        }
        Cmd::Format { id, .. } => {
            must(name.len() > 16, "of the name")?;
            if ok {
                let l = kind.header_layout();
                let h = ra.sector(kind.header()).unwrap();
                let mut i = codes(id);
                i.resize(2, 0);
                if !ea.is_empty() || ra.blocks_free() != kind.blank_free() {
                    return Err("the disk is not blank".to_string());
                }
                if trim_name(h[l.name..l.name + 16].to_vec()) != name || h[l.id..l.id + 2] != i[..] {
                    return Err("name or id".to_string());
                }
            } else if before != after {
                return Err("a refused format changed the image".to_string());
            }
        }
        Cmd::Dir { v, .. } => {
            if let Some(t) = dir_text(kind, before, *v) {
                if t != text {
                    return Err(format!("listing: {}", text_diff(text, &t)));
                }
            }
        }
        Cmd::BamShow => {
            let t = bam_text(kind, before);
            if t != text {
                return Err(format!("map: {}", text_diff(text, &t)));
            }
        }
        Cmd::Dump { name: None } => {
            let t = disk_text(kind, before);
            if t != text {
                return Err(format!("dump: {}", text_diff(text, &t)));
            }
        }
        Cmd::Dump { .. } => {
            must(here.is_none(), "of the names on the disk")?;
            if let Some(e) = here.filter(|e| matches!(e.scheme(), Scheme::Linear | Scheme::GeosSeq)) {
                let d = rb.chain_data(e.first()).map_err(|e| format!("{:?}", e))?;
                let t = file_text(name, &[d]);
                if t != text {
                    return Err(format!("dump: {}", text_diff(text, &t)));
                }
            }
        }
        _ => (),
    }
    Ok(())
}

impl Drop for World {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.dir);
    }
}

fn tool(c: &Case, obs: &mut Obs) -> Res {
    let mut w = World::new(c);
    let mut useful = 0;
    for cmd in &c.cmds {
        if w.step(cmd, obs)? {
            useful += 1;
        }
    }
    obs.label(match c.start {
        Start::Image(_) => "image",
        Start::Damaged(_) => "damaged-image",
        Start::Zero(_) => "unformatted-image",
        Start::Nothing => "no-image",
        Start::Odd(_) => "not-an-image",
    });
    if useful > 0 {
        obs.nontrivial();
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Listing {
    image: Foreign,
    memory: bool,
    v: u8,
}

fn listing(c: &Listing, obs: &mut Obs) -> Res {
    let b = build(&c.image);
    let s = Sut::new(b.kind, &b.bytes, c.memory)?;
    let got = lib_dir(s.d(), c.v).map_err(|e| format!("listing: {}", show_err(&e)))?;
    let want = dir_text(b.kind, &b.bytes, c.v).ok_or("the image is broken")?;
    if got != want {
        return Err(format!("verbosity {}: {}", c.v, text_diff(&got, &want)));
    }
    let bam = s.d().bam().map_err(|e| show_err(&e))?;
    let got = format!("{:?}", bam.borrow());
    let want = bam_text(b.kind, &b.bytes);
    if got != want {
        return Err(format!("map: {}", text_diff(&got, &want)));
    }
    if b.files.len() > 1 {
        obs.nontrivial();
    }
    obs.label_if(c.v > 1, "details");
    obs.label_if(b.files.iter().any(|f| f.border), "border");
    Ok(())
}

/// An image its user may only read.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Protected {
    image: Foreign,
    pick: usize,
    v: u8,
}

/// The user the tool runs as: not root, for whom every file is writable.
const NOBODY: u32 = 65534;

fn protected(c: &Protected, obs: &mut Obs) -> Res {
    use std::os::unix::fs::PermissionsExt;
    use std::os::unix::process::CommandExt;
    let b = build(&c.image);
    let dir = fresh("");
    fs::create_dir(&dir).expect("create scratch directory");
    let mode = |p: &Path, m: u32| fs::set_permissions(p, fs::Permissions::from_mode(m)).expect("set permissions");
    mode(&dir, 0o755);
    let image = dir.join(format!("i.{}", b.kind.extension()));
    fs::write(&image, &b.bytes).expect("write scratch file");
    mode(&image, 0o444);
    let copy = dir.join("cdisk");
    fs::copy(binary(), &copy).expect("copy cdisk");
    mode(&copy, 0o755);
    // Where another user can run the tool and see the image.
    let as_nobody = |p: &Path, args: &[&str]| -> Option<std::process::Output> {
        Command::new(p)
            .args(args)
            .current_dir(&dir)
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::null())
            .uid(NOBODY)
            .gid(NOBODY)
            .output()
            .ok()
    };
    let shown_image = image.to_string_lossy().into_owned();
    let sees = as_nobody(Path::new("cat"), &[&shown_image]).map_or(false, |o| o.stdout == b.bytes);
    let runs = |p: &PathBuf| as_nobody(p, &["--version"]).map_or(false, |o| o.status.success());
    let tool = match vec![copy, binary()].into_iter().find(|p| sees && runs(p)) {
        Some(t) => t,
        None => {
            let _ = fs::remove_dir_all(&dir);
            obs.label("cannot-run-as-another-user");
            return Ok(());
        }
    };
    let mut cmds: Vec<Vec<String>> = vec![
        vec!["dir".into()],
        vec!["bam".into(), "show".into()],
        vec!["validate".into()],
        vec!["dump".into()],
    ];
    if c.v > 0 {
        cmds[0].push(format!("-{}", "v".repeat(c.v as usize)));
    }
    if let Some(f) = b.files.get(c.pick % b.files.len().max(1)) {
        let n = shown_text(&f.name);
        if addressable(&f.name) {
            cmds.push(vec!["read".into(), n.clone(), "-".into()]);
            cmds.push(vec!["geosread".into(), n.clone(), "-".into()]);
            cmds.push(vec!["dump".into(), n]);
        }
    }
    let mut failure = None;
    let mut compared = 0;
    for args in &cmds {
        let mut full: Vec<&str> = vec![&shown_image];
        full.extend(args.iter().map(|a| &a[..]));
        let a = Command::new(&tool)
            .args(&full)
            .current_dir(&dir)
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::null())
            .output()
            .expect("run cdisk");
        let o = match as_nobody(&tool, &full) {
            Some(o) => o,
            None => continue,
        };
        compared += 1;
        if (a.status.code(), &a.stdout, &a.stderr) != (o.status.code(), &o.stdout, &o.stderr) {
            failure = Some(format!(
                "cdisk {} of a write-protected image: exit code {:?}, standard error {:?} instead of {:?}, {:?}",
                args.join(" "),
                o.status.code(),
                String::from_utf8_lossy(&o.stderr),
                a.status.code(),
                String::from_utf8_lossy(&a.stderr)
            ));
            break;
        }
    }
    let after = fs::read(&image).ok();
    let _ = fs::remove_dir_all(&dir);
    if let Some(m) = failure {
        return Err(m);
    }
    if after.as_ref() != Some(&b.bytes) {
        return Err("a reading command changed the image".to_string());
    }
    if compared > 0 {
        obs.nontrivial();
    }
    obs.label_if(b.files.iter().any(|f| addressable(&f.name)), "with-a-file");
    Ok(())
}

pub fn c22(ctx: &mut Ctx) {
    ctx.sub(
        "tool",
        2_500,
        "at least one command changed the image, delivered a file or printed a result",
        &case_strategy,
        &tool,
    );
    ctx.sub(
        "listing",
        15_000,
        "a disk with several files",
        &|| {
            (foreign_strategy(10, 12, true), any::<bool>(), 0u8..=5)
                .prop_map(|(image, memory, v)| Listing { image, memory, v })
                .boxed()
        },
        &listing,
    );
    ctx.sub(
        "protected",
        800,
        "the tool ran as another user on an image it may only read",
        &|| {
            (foreign_strategy(6, 8, true), any::<usize>(), 0u8..=3)
                .prop_map(|(image, pick, v)| Protected { image, pick, v })
                .boxed()
        },
        &protected,
    );
}
