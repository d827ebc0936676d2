//! The properties and the checks that decide them.

use crate::runner::Ctx;

mod c01;
mod c05;
mod c06;
mod c07;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c16;
mod c17;
mod c18;
mod c20;
mod c21;
mod c23;
mod c24;
mod c22;
mod c25;

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub run: fn(&mut Ctx),
    pub assumptions: &'static [&'static str],
}

pub const ALL: &[Prop] = &[
    Prop { id: "C01", level: "exploration", run: c01::c01, assumptions: &[
        "names do not end in the pad byte 0xA0, which the format cannot represent",
        "histories of up to 30 operations on one handle; concurrent handles are C17",
    ]},
    Prop { id: "C02", level: "exploration", run: c01::c02, assumptions: &[
        "starting images are consistent; inconsistent ones are C10 and C11",
    ]},
    Prop { id: "C03", level: "exploration", run: c01::c03, assumptions: &[
        "the operating system keeps what is written to a shared mapping",
    ]},
    Prop { id: "C04", level: "exploration", run: c01::c04, assumptions: &[
        "a directory block linked in for an entry that could not be created may stay",
    ]},
    Prop { id: "C05", level: "exploration", run: c05::c05, assumptions: &[] },
    Prop { id: "C06", level: "exploration", run: c06::c06, assumptions: &[
        "the scratch directory is on an ordinary file system",
    ]},
    Prop { id: "C07", level: "exploration", run: c07::c07, assumptions: &[] },
    Prop { id: "C08", level: "exploration", run: c07::c08, assumptions: &[
        "free counts agree with the bitmaps",
        "continuation is only asked for after a data block or a directory block",
    ]},
    Prop { id: "C09", level: "exploration", run: c09::c09, assumptions: &[
        "a partly used last directory block holds whole entries; an incomplete one at its end is not an entry",
    ]},
    Prop { id: "C10", level: "exploration", run: c10::c10, assumptions: &[
        "the directory chain itself can be followed (otherwise C11)",
        "the blocks of a relative file are those its side sectors name",
    ]},
    Prop { id: "C11", level: "exploration", run: c11::c11, assumptions: &[
        "running forever is recognised by a budget of sector and map accesses far above what any disk needs, and by a time limit",
    ]},
    Prop { id: "C12", level: "exploration", run: c12::c12, assumptions: &[
        "the in-memory availability map handed out by bam() is only changed through operations of the disk and its files",
    ]},
    Prop { id: "C13", level: "exploration", run: c13::c13, assumptions: &[
        "side sectors are consistent if the chain and every list of side sectors agree, there are at most six, and the data length is a multiple of the record length",
    ]},
    Prop { id: "C14", level: "exploration", run: c14::c14, assumptions: &[
        "the records of a VLIR index end at its first 00 00 entry",
    ]},
    Prop { id: "C15", level: "exploration", run: c14::c15, assumptions: &[
        "the last record of a stream may be unpadded",
    ]},
    Prop { id: "C16", level: "exploration", run: c16::c16, assumptions: &[
        "the disk has room for the data (otherwise C04)",
    ]},
    Prop { id: "C17", level: "exploration", run: c17::c17, assumptions: &[
        "one writer per file at a time, and no reader or deletion of a file being written",
        "the disk has room for the data",
        "handles are used from one thread (they are not Send)",
    ]},
    Prop { id: "C18", level: "exploration", run: c18::c18, assumptions: &[
        "a character that several codes display is translated to the lowest of them",
    ]},
    Prop { id: "C19", level: "exploration", run: c18::c19, assumptions: &[
    ]},
    Prop { id: "C20", level: "exploration", run: c20::c20, assumptions: &[
    ]},
    Prop { id: "C21", level: "exploration", run: c21::c21, assumptions: &[
    ]},
    Prop { id: "C23", level: "exploration", run: c23::c23, assumptions: &[
        "appending is compared on chains whose last block is a data block, or within the last block",
    ]},
    Prop { id: "C24", level: "fault_enumeration", run: c24::c24, assumptions: &[
        "a single sector update is atomic",
        "the image is the one in memory or in the page cache; what the operating system writes back later is out of scope",
    ]},
    Prop { id: "C22", level: "exploration", run: c22::c22, assumptions: &[
        "names are texts that can be given as arguments: not starting with a dash, no slash",
        "error texts are those of the library's errors; exit codes are only required to be 0 on success",
    ]},
    Prop { id: "C25", level: "exploration", run: c25::c25, assumptions: &[
        "writers are flushed before the disk is initialized again",
    ]},
    Prop { id: "C26", level: "exploration", run: c25::c26, assumptions: &[
        "free counts agree with the bitmaps at the start",
    ]},
];

pub fn find(id: &str) -> Option<&'static Prop> {
    ALL.iter().find(|p| p.id == id)
}
