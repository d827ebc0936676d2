//! Glue to the library under test: opening images in memory or in scratch files, taking
//! snapshots of the image bytes, and reading everything the library reports about a disk.

use std::io::{self, Read, Write};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};

use cbm::disk::directory::{DirectoryEntry, Extra, FileType};
use cbm::disk::file::{File, FileOps, Scheme};
use cbm::disk::{self, Disk, DiskError, Id, D64, D71, D81};
use cbm::Petscii;

use crate::geom::{Family, Kind, Loc};

/// Make a location value of the library's (private) location type.
#[macro_export]
macro_rules! loc {
    ($disk:expr, $l:expr) => {{
        let l: $crate::geom::Loc = $l;
        let mut x = $disk.native_disk_format().first_directory_location();
        x.0 = l.0;
        x.1 = l.1;
        x
    }};
}

/// A disk object without borrowed parts.
pub type DynDisk = dyn Disk;

pub fn make_scratch() -> PathBuf {
    let base = if std::fs::metadata("/dev/shm").map_or(false, |m| m.is_dir()) {
        PathBuf::from("/dev/shm")
    } else {
        std::env::temp_dir()
    };
    for base in [base, std::env::temp_dir()].iter() {
        for i in 0..1000 {
            let p = base.join(format!("cbm-verif-{}-{}", std::process::id(), i));
            if std::fs::create_dir(&p).is_ok() {
                return p;
            }
        }
    }
    eprintln!("cannot create a scratch directory");
    std::process::exit(3);
}

pub fn scratch() -> PathBuf {
    match std::env::var("HARNESS_SCRATCH") {
        Ok(s) => PathBuf::from(s),
        Err(_) => {
            eprintln!("no scratch directory");
            std::process::exit(3);
        }
    }
}

static COUNTER: AtomicUsize = AtomicUsize::new(0);

/// A fresh name in the scratch directory.
pub fn fresh(suffix: &str) -> PathBuf {
    let n = COUNTER.fetch_add(1, Ordering::Relaxed);
    scratch().join(format!("i{}-{}{}", std::process::id(), n, suffix))
}

pub fn pet(b: &[u8]) -> Petscii {
    Petscii::from_bytes(b)
}

pub fn id(b: [u8; 2]) -> Id {
    Id::from_bytes(&b)
}

pub fn derr(e: &io::Error) -> Option<DiskError> {
    DiskError::from_io_error(e)
}

pub fn show_err(e: &io::Error) -> String {
    match derr(e) {
        Some(d) => format!("{:?}", d),
        None => format!("io error {:?}", e),
    }
}

/// Run without step accounting.
pub fn unmetered<T>(f: impl FnOnce() -> T) -> T {
    let b = cbm::verif::step_budget();
    cbm::verif::set_step_budget(None);
    let r = f();
    cbm::verif::set_step_budget(if b == u64::MAX { None } else { Some(b) });
    r
}

pub fn blank_memory(kind: Kind) -> Box<dyn Disk> {
    let e = kind.has_errors();
    match kind.family() {
        Family::F1541 if kind.tracks() == 40 => {
            Box::new(D64::open_memory(D64::geometry_40_tracks(e)).expect("open_memory"))
        }
        Family::F1541 => Box::new(D64::open_memory(D64::geometry(e)).expect("open_memory")),
        Family::F1571 => Box::new(D71::open_memory(D71::geometry(e)).expect("open_memory")),
        Family::F1581 => Box::new(D81::open_memory(D81::geometry(e)).expect("open_memory")),
    }
}

pub fn create_image(kind: Kind, path: &Path, create_new: bool) -> io::Result<Box<dyn Disk>> {
    let e = kind.has_errors();
    Ok(match kind.family() {
        Family::F1541 if kind.tracks() == 40 => {
            Box::new(D64::create(path, D64::geometry_40_tracks(e), create_new)?)
        }
        Family::F1541 => Box::new(D64::create(path, D64::geometry(e), create_new)?),
        Family::F1571 => Box::new(D71::create(path, D71::geometry(e), create_new)?),
        Family::F1581 => Box::new(D81::create(path, D81::geometry(e), create_new)?),
    })
}

/// Put an image into an in-memory disk.
pub fn load_memory(kind: Kind, bytes: &[u8]) -> Box<dyn Disk> {
    unmetered(|| {
        let mut d = blank_memory(kind);
        {
            let mut b = d.blocks_ref_mut();
            for l in kind.locations() {
                let o = kind.offset(l);
                b.sector_mut(loc!(d, l))
                    .expect("sector_mut of a valid location")
                    .copy_from_slice(&bytes[o..o + 256]);
            }
            if kind.has_errors() {
                b.error_table_mut()
                    .expect("error table")
                    .expect("error table")
                    .copy_from_slice(&bytes[kind.data_size()..]);
            }
        }
        d.initialize();
        d
    })
}

/// The image bytes, read through the block interface.
pub fn snapshot(kind: Kind, d: &DynDisk) -> Vec<u8> {
    unmetered(|| {
        let mut v = vec![0u8; kind.size()];
        let b = d.blocks_ref();
        for l in kind.locations() {
            let o = kind.offset(l);
            v[o..o + 256].copy_from_slice(b.sector(loc!(d, l)).expect("sector of a valid location"));
        }
        if kind.has_errors() {
            let n = kind.data_size();
            v[n..].copy_from_slice(b.error_table().expect("error table").expect("error table"));
        }
        v
    })
}

/// A disk under test, in memory or in a scratch file.
pub struct Sut {
    pub kind: Kind,
    disk: Option<Box<dyn Disk>>,
    pub path: Option<PathBuf>,
    pub writable: bool,
}

impl Sut {
    pub fn memory(kind: Kind, bytes: &[u8]) -> Sut {
        Sut { kind, disk: Some(load_memory(kind, bytes)), path: None, writable: true }
    }

    /// Store the image in a scratch file and open it.
    pub fn file(kind: Kind, bytes: &[u8], writable: bool) -> Result<Sut, String> {
        let path = fresh(&format!(".{}", kind.extension()));
        std::fs::write(&path, bytes).expect("write scratch file");
        let mut s = Sut { kind, disk: None, path: Some(path.clone()), writable };
        match unmetered(|| disk::open(&path, writable)) {
            Ok(d) => s.disk = Some(d),
            Err(e) => return Err(format!("cannot open a {:?} image: {}", kind, show_err(&e))),
        }
        Ok(s)
    }

    pub fn new(kind: Kind, bytes: &[u8], in_memory: bool) -> Result<Sut, String> {
        if in_memory {
            Ok(Sut::memory(kind, bytes))
        } else {
            Sut::file(kind, bytes, true)
        }
    }

    pub fn d(&self) -> &DynDisk {
        &**self.disk.as_ref().unwrap()
    }

    pub fn m(&mut self) -> &mut DynDisk {
        &mut **self.disk.as_mut().unwrap()
    }

    /// The current image bytes (of the file itself, for file images).
    pub fn image(&self) -> Vec<u8> {
        match self.path {
            Some(ref p) => {
                let v = std::fs::read(p).expect("read scratch file");
                assert_eq!(v.len(), self.kind.size(), "the image file changed its size");
                v
            }
            None => snapshot(self.kind, self.d()),
        }
    }

    /// Close the image and open it again.
    pub fn reopen(&mut self, writable: bool) -> Result<(), String> {
        match self.path {
            Some(ref p) => {
                self.disk = None;
                match unmetered(|| disk::open(p, writable)) {
                    Ok(d) => self.disk = Some(d),
                    Err(e) => return Err(format!("cannot re-open the image: {}", show_err(&e))),
                }
                self.writable = writable;
            }
            None => {
                let bytes = self.image();
                self.disk = Some(load_memory(self.kind, &bytes));
            }
        }
        Ok(())
    }
}

impl Drop for Sut {
    fn drop(&mut self) {
        self.disk = None;
        if let Some(ref p) = self.path {
            let _ = std::fs::remove_file(p);
        }
    }
}

pub fn file_type(n: u8) -> FileType {
    match n {
        0 => FileType::DEL,
        1 => FileType::SEQ,
        2 => FileType::PRG,
        3 => FileType::USR,
        4 => FileType::REL,
        n => FileType::Unknown(n),
    }
}

/// A directory entry as the library reports it, as plain data.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct LEntry {
    pub name: Vec<u8>,
    pub attr: u8,
    pub first: Loc,
    pub size: u16,
    pub extra: Vec<u8>,
    pub scheme: crate::raw::Scheme,
    pub border: bool,
    pub position: Option<(Loc, u8, u8)>,
}

pub fn plain_scheme(s: Scheme) -> crate::raw::Scheme {
    match s {
        Scheme::Linear => crate::raw::Scheme::Linear,
        Scheme::Relative => crate::raw::Scheme::Rel,
        Scheme::GEOSSequential => crate::raw::Scheme::GeosSeq,
        Scheme::GEOSVLIR => crate::raw::Scheme::Vlir,
    }
}

fn extra_fields(e: &Extra) -> Vec<u8> {
    // From the public fields, not through the library's own encoder.
    let mut v = vec![];
    match e {
        Extra::Linear(x) => v.extend_from_slice(&x.unused),
        Extra::Relative(x) => {
            v.push(x.first_side_sector.0);
            v.push(x.first_side_sector.1);
            v.push(x.record_length);
            v.extend_from_slice(&x.unused);
        }
        Extra::GEOS(x) => {
            v.push(x.info_block.0);
            v.push(x.info_block.1);
            v.push(x.structure.to_byte());
            v.push(x.geos_file_type.to_byte());
            v.extend_from_slice(&[x.year, x.month, x.day, x.hour, x.minute]);
        }
    }
    v
}

pub fn type_nibble(t: FileType) -> u8 {
    match t {
        FileType::DEL => 0,
        FileType::SEQ => 1,
        FileType::PRG => 2,
        FileType::USR => 3,
        FileType::REL => 4,
        FileType::Unknown(b) => b,
    }
}

pub fn plain_entry(e: &DirectoryEntry) -> LEntry {
    let a = &e.file_attributes;
    LEntry {
        name: e.filename.as_bytes().to_vec(),
        attr: type_nibble(a.file_type)
            | (a.unused_bit as u8) << 4
            | (a.save_with_replace_flag as u8) << 5
            | (a.locked_flag as u8) << 6
            | (a.closed_flag as u8) << 7,
        first: (e.first_sector.0, e.first_sector.1),
        size: e.file_size,
        extra: extra_fields(&e.extra),
        scheme: plain_scheme(e.scheme),
        border: e.is_geos_border(),
        position: e
            .position
            .map(|p| ((p.location.0, p.location.1), p.offset, p.size)),
    }
}

pub fn listing(d: &DynDisk) -> io::Result<Vec<LEntry>> {
    Ok(d.directory()?.iter().map(plain_entry).collect())
}

pub fn read_file(d: &DynDisk, name: &[u8]) -> io::Result<Vec<u8>> {
    let f = d.open_file(&pet(name))?;
    let mut v = vec![];
    crate::util::drain(&mut *f.reader()?, 1 << 20, &mut v)?;
    Ok(v)
}

/// The records of a file (linear files have one).
pub fn records(f: &File) -> io::Result<Vec<Vec<u8>>> {
    (0..f.record_count()?).map(|i| f.record(i)).collect()
}

pub fn occupied(f: &File) -> io::Result<Vec<Loc>> {
    Ok(f.occupied_sectors()?.iter().map(|l| (l.0, l.1)).collect())
}

pub fn bam_entries(kind: Kind, d: &DynDisk) -> io::Result<Vec<(u8, u64)>> {
    let bam = d.bam()?;
    let bam = bam.borrow();
    (1..=kind.dos_tracks())
        .map(|t| bam.entry(t).map(|e| (e.free_sectors, e.sector_map)))
        .collect()
}

/// Write data with a fresh writer on the named file; returns how the write ended.
pub fn append(d: &DynDisk, name: &[u8], data: &[u8], chunk: usize) -> io::Result<()> {
    let f = d.open_file(&pet(name))?;
    let mut w = f.writer()?;
    let r = write_chunks(&mut *w, data, chunk);
    let fl = w.flush();
    r?;
    fl
}

pub fn write_chunks(w: &mut dyn Write, data: &[u8], chunk: usize) -> io::Result<()> {
    for c in data.chunks(chunk.max(1)) {
        w.write_all(c)?;
    }
    Ok(())
}

/// Everything a session reports about a disk.
#[derive(Clone, PartialEq, Debug)]
pub struct View {
    pub entries: Vec<LEntry>,
    pub contents: Vec<Result<Vec<Vec<u8>>, String>>,
    pub occupied: Vec<Result<Vec<Loc>, String>>,
    pub bam: Vec<(u8, u64)>,
    pub blocks_free: usize,
    pub name: Option<Vec<u8>>,
    pub header: Option<(Vec<u8>, u8, u8, u8)>,
    pub display: String,
}

pub fn view(kind: Kind, d: &DynDisk) -> Result<View, String> {
    let dir = d.directory().map_err(|e| format!("directory: {}", show_err(&e)))?;
    let mut contents = vec![];
    let mut occ = vec![];
    for e in &dir {
        match d.open_file_from_entry(e) {
            Ok(f) => {
                contents.push(records(&f).map_err(|e| show_err(&e)));
                occ.push(occupied(&f).map_err(|e| show_err(&e)));
            }
            Err(e) => {
                contents.push(Err(show_err(&e)));
                occ.push(Err(show_err(&e)));
            }
        }
    }
    Ok(View {
        entries: dir.iter().map(plain_entry).collect(),
        contents,
        occupied: occ,
        bam: bam_entries(kind, d).map_err(|e| format!("availability map: {}", show_err(&e)))?,
        blocks_free: d.blocks_free().map_err(|e| format!("blocks free: {}", show_err(&e)))?,
        name: d.name().map(|n| n.as_bytes().to_vec()),
        header: d.header().ok().map(|h| {
            (
                vec![h.disk_id[0], h.disk_id[1]],
                h.disk_format_type,
                h.directory_dos_version,
                h.directory_format_type,
            )
        }),
        display: format!("{}", d),
    })
}

/// The first difference between two views.
pub fn view_diff(a: &View, b: &View) -> Option<String> {
    if a.name != b.name {
        return Some(format!("disk name {:?} / {:?}", a.name, b.name));
    }
    if a.header != b.header {
        return Some(format!("header {:?} / {:?}", a.header, b.header));
    }
    if a.display != b.display {
        return Some(format!("title {:?} / {:?}", a.display, b.display));
    }
    if a.entries != b.entries {
        for i in 0..a.entries.len().max(b.entries.len()) {
            if a.entries.get(i) != b.entries.get(i) {
                return Some(format!(
                    "directory entry {}: {:?} / {:?}",
                    i,
                    a.entries.get(i),
                    b.entries.get(i)
                ));
            }
        }
    }
    for i in 0..a.entries.len() {
        if a.contents[i] != b.contents[i] {
            return Some(format!("contents of {:?}", a.entries[i].name));
        }
        if a.occupied[i] != b.occupied[i] {
            return Some(format!("occupied blocks of {:?}", a.entries[i].name));
        }
    }
    for t in 0..a.bam.len().max(b.bam.len()) {
        if a.bam.get(t) != b.bam.get(t) {
            return Some(format!(
                "availability map of track {}: {:x?} / {:x?}",
                t + 1,
                a.bam.get(t),
                b.bam.get(t)
            ));
        }
    }
    if a.blocks_free != b.blocks_free {
        return Some(format!("blocks free {} / {}", a.blocks_free, b.blocks_free));
    }
    None
}
