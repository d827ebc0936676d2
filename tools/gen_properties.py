#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
D="src/disk/"
p("C01","Files read back exactly what was written, under any history",
"After any sequence of creating, writing, appending, renaming, deleting, formatting and re-opening on any supported image type, the directory lists exactly the live files with the names (shifted spaces at the end of a name do not count) and types given to them, and each file reads back exactly the bytes successfully written to it, in order. No operation on one file changes the listed metadata or contents of another.",
["histories","inputs","configurations"],"all operation histories, file names, contents and lengths, on D64 (35/40 tracks), D71 and D81 images with and without error tables, in memory or file-backed, starting from formatted blank disks or from populated (including GEOS-formatted) disks made by other software",
"The integration test plays one kind of random history and compares contents only; it samples a few sizes, never appends across re-opens, never starts from foreign disks, and does not check that untouched files keep every byte.",
[D+"mod.rs",D+"chain.rs",D+"file.rs",D+"directory.rs",D+"format.rs",D+"bam.rs"],
[("create/rename/open by name","src/disk/mod.rs"),("chain writer and reader","src/disk/chain.rs"),("directory slot search and entry encoding","src/disk/directory.rs")],
["directory listing","file reader output"])
p("C02","Block ownership and the availability map always agree",
"After every completed operation, each block belongs to at most one file or system structure, and the blocks marked allocated are exactly those occupied by the system areas, the directory and the files; the reported number of free blocks, the occupied-block list of each file and the block count shown in its directory entry agree with this. Deleting a file makes exactly its blocks available again, whatever kind of file it is.",
["histories","configurations"],"all operation histories on all image types, including deletion of relative, GEOS sequential and GEOS VLIR files placed by other software",
"Tests call the library's own validator after a random history of linear files; nothing independent recomputes ownership from the raw bytes, and no test deletes non-linear files.",
[D+"bam.rs",D+"chain.rs",D+"file.rs",D+"geos/file.rs",D+"mod.rs",D+"directory.rs"],
[("allocate/free","src/disk/bam.rs"),("free_locations/remove_chain","src/disk/chain.rs"),("delete","src/disk/file.rs, src/disk/geos/file.rs")],
["raw image bytes","blocks_free","occupied_sectors"])
p("C03","Completed operations are in the image: re-opening shows the same disk",
"Once an operation has completed (for writing: once the writer was flushed or dropped), the image bytes alone carry its full effect: closing and re-opening the image, read-only or read-write, at any point of any history yields the same directory, file contents, availability map, free count and disk name as the session that made the changes. Continuing to work after a re-open is indistinguishable from continuing in the original session.",
["histories","crash_points","configurations"],"all histories with a re-open (or an abrupt copy of the image) after any completed operation",
"The tests only re-open an image at the end of the full history, when some later flush has repaired whatever an earlier operation forgot to write.",
[D+"mod.rs",D+"bam.rs",D+"image.rs",D+"directory.rs",D+"d64.rs",D+"d71.rs",D+"d81.rs"],
[("BAM flush","src/disk/bam.rs"),("initialize","src/disk/mod.rs"),("memory-mapped image","src/disk/image.rs")],
["image file bytes","second handle on the image"])
p("C04","Operations that cannot succeed fail with the right error and do no harm",
"Creating or renaming to an existing name, using an overlong name, addressing a missing file, or running out of blocks or directory entries is reported with the error for that condition, and leaves the directory, every file's contents, the availability map and the disk name as they were; a write that runs out of space keeps exactly the bytes that fit. Space errors are reported only when the disk really has no free data block (or the directory track no free directory block), so every free block can be used.",
["histories","inputs","fault_sequences"],"all failing requests in all reachable disk states, in particular full disks and full directories on every image type",
"Tests never fill a disk or a directory through the file API and never check the state after a failed call.",
[D+"mod.rs",D+"chain.rs",D+"directory.rs",D+"format.rs",D+"error.rs"],
[("filename checks","src/disk/mod.rs, src/disk/directory.rs"),("DiskFull","src/disk/format.rs"),("allocation ordering in the writer","src/disk/chain.rs")],
["returned error","state before/after"])
p("C05","Formatting yields a blank, valid disk with the requested name and id",
"Formatting any image, whatever its previous contents, yields a disk with no files, the requested name (up to 16 characters) and two-character id and the drive's standard DOS version and format bytes, in which exactly the system blocks are allocated, all remaining blocks are free (664, 1328 or 3160 data blocks), and which validates cleanly and passes re-opening. No data of the previous contents is reachable afterwards, the error table is left alone, and an unusable name is refused before anything is erased.",
["inputs","configurations","histories"],"all names and ids, all image types and geometries, all prior image contents and histories",
"Tests format a handful of blank images with fixed names.",
[D+"mod.rs",D+"header.rs",D+"bam.rs",D+"format.rs"],
[("write_format","src/disk/mod.rs"),("header write","src/disk/header.rs"),("system_locations","src/disk/format.rs")],
["raw image bytes","name/blocks_free/validate"])
p("C06","Track and sector addressing matches the disk geometry",
"Every valid track and sector of a disk type addresses its own 256-byte range of the image at the offset given by the drive's zone layout, reading returns what was last written there and writing changes nothing else; every other address is rejected with an error. An image is recognised by its size (with or without error table) or extension, other sizes are refused, and creating an image gives a blank one of the right size without clobbering an existing file unless asked to.",
["inputs","configurations"],"all locations, including out-of-range ones, for all eight image sizes; all image sizes and file names",
"Unit tests compare the layout tables with themselves; no test checks offsets of actual reads and writes, out-of-range rejection, or size detection.",
[D+"block.rs",D+"image.rs",D+"mod.rs",D+"d64.rs",D+"d71.rs",D+"d81.rs"],
[("get_offset/sector/sector_mut","src/disk/block.rs"),("geometry tables","src/disk/d64.rs, d71.rs, d81.rs"),("open","src/disk/mod.rs")],
["read_sector/write_sector vs raw bytes"])
p("C07","The availability map is stored in the drives' on-disk format",
"Marking any set of blocks allocated or free is stored so that each track's free count and bitmap sit at the places the 1541, 1571 and 1581 use for them (bit set = free, count = number of set bits), and any map found on a disk is read back as exactly that set of blocks and counts. Storing the map changes no other byte of the image.",
["inputs","configurations","histories"],"all availability maps, for all tracks and disk types, and all sequences of allocating and freeing",
"The unit test decodes one 1541 entry; the split 1571 map and the two 1581 blocks are only exercised through the code's own reader.",
[D+"bam.rs",D+"d64.rs",D+"d71.rs",D+"d81.rs"],
[("Bam read and BamWriter","src/disk/bam.rs"),("BAM section tables","src/disk/d64.rs, d71.rs, d81.rs")],
["raw bytes of the BAM sectors","free count, allocated and free sector lists"])
p("C08","Blocks are placed by the drives' next-available-block algorithm",
"For every availability map, the block chosen for the start of a file, for the continuation of a file after any given block, and for a new directory block is the one the documented CBM DOS (or, on GEOS-formatted disks, GEOS) algorithm selects; it is always a free, existing block outside the reserved tracks, and one is found whenever any data block is free. Files written through the library are laid out this way block by block.",
["inputs","histories","configurations"],"all availability maps and previous locations on all disk types, GEOS-formatted or not, and all write histories",
"Unit tests follow the algorithm on an empty disk in a few fixed sequences; fragmented maps are not covered.",
[D+"format.rs",D+"bam.rs",D+"chain.rs"],
[("first/next free track and block","src/disk/format.rs"),("next_free_data_block","src/disk/bam.rs"),("allocate_next_block","src/disk/chain.rs")],
["next_free_block result","block sequence of written files"])
p("C09","Directory entries are interpreted and rewritten without loss",
"Listing a disk yields, in on-disk order over the directory chain (and then the GEOS border block), every entry that is not scratched, with its name, type, flags, first block, size and type-specific metadata exactly as stored. Writing an entry back, renaming or scratching a file changes only the bytes that belong to the changed fields, for every combination of attribute bits and metadata; an entry whose name does not fit is refused.",
["inputs","histories"],"all 30-byte directory entries in all slots of directory chains of any length, on all disk types",
"One unit test round-trips five hand-picked entries from a GEOS boot disk.",
[D+"directory.rs",D+"mod.rs",D+"geos/mod.rs"],
[("entry parse and to_bytes","src/disk/directory.rs"),("DirectoryIterator","src/disk/directory.rs"),("rename","src/disk/mod.rs")],
["iterator output","raw directory bytes"])
p("C10","Validation reports exactly the inconsistencies present, and nothing else",
"Validating an image reports every system block marked free, every allocated block nobody uses, every used block marked free, every block that belongs to more than one file (or to a file and the system) and every file that cannot be followed, each naming the right block and file; it reports nothing on a consistent image. Validation never changes the image.",
["inputs","histories","configurations"],"all consistent disks, and all disks with any combination of map errors, cross-linked files and damaged files, on all disk types",
"Tests only ever validate disks that are consistent.",
[D+"validation.rs",D+"bam.rs",D+"file.rs",D+"geos/file.rs"],
[("validate","src/disk/validation.rs"),("occupied_sectors","src/disk/file.rs, src/disk/geos/file.rs")],
["list of validation errors vs independent scan"])
p("C11","Damaged or hostile images never crash or hang the library",
"For every image content of an accepted size, opening, listing, reading, dumping, validating, creating, appending, renaming and deleting all finish with a result or an error; they never panic, never run forever and never touch bytes outside the image.",
["inputs","fault_sequences"],"all byte contents of images of all accepted sizes, random as well as structurally damaged (looping and crossing chains, bad links, bad counts, truncated side sectors, wild info-block and border pointers), and all sequences of operations on them",
"No test opens a damaged image.",
[D+"chain.rs",D+"file.rs",D+"geos/file.rs",D+"geos/reader.rs",D+"directory.rs",D+"bam.rs",D+"block.rs",D+"header.rs"],
[("loop detection","src/disk/chain.rs"),("location checks","src/disk/block.rs, src/disk/bam.rs"),("relative file consistency checks","src/disk/file.rs")],
["panic","step budget"],"step budget on sector accesses (cfg cbm_verif)")
p("C12","Images opened read-only are never modified",
"On an image opened read-only, every attempt to format, create, write, rename, delete, or write sectors, the header or the availability map fails with the read-only error (for buffered writes at the latest when flushed), the image file stays byte-identical, and everything the handle reports afterwards is the same as before. Read operations on a writable image change no byte either.",
["histories","inputs","configurations"],"all sequences of read and write requests on read-only handles of all image types, and all read-only operations on writable handles",
"No test attempts to write through a read-only handle.",
[D+"image.rs",D+"block.rs",D+"mod.rs",D+"chain.rs"],
[("check_writability","src/disk/image.rs, src/disk/block.rs"),("create_file/free_locations up-front checks","src/disk/mod.rs, src/disk/chain.rs")],
["image bytes","returned errors","handle state"])
p("C13","Relative file records are delivered exactly",
"For every well-formed relative file the record count is the data length divided by the record length, and each record is exactly its slice of the data even when it straddles blocks; an index beyond the end is an error. Files whose side sectors are inconsistent are rejected, linear access is refused, and the occupied blocks are exactly data plus side sectors.",
["inputs","configurations"],"all record lengths 1-254, record counts and block placements up to six side sectors, and all single inconsistencies in side sectors",
"No test contains a relative file.",
[D+"file.rs",D+"directory.rs"],
[("RelativeFile::new/record_position/record","src/disk/file.rs")],
["record_count, record, occupied_sectors"])
p("C14","GEOS files: records, info block and metadata are delivered exactly",
"For every GEOS sequential or VLIR file, the number of records, the bytes of each record (empty for records marked unavailable), the directory metadata and every field of the info block are exactly what is stored on disk, and an index beyond the end is an error. The info block survives decoding and re-encoding unchanged, linear reading is offered only for sequential files, and the occupied blocks are exactly index, record chains and info block.",
["inputs","configurations"],"all record numbers, sizes and placements, empty and deleted records, all info block contents, all GEOS types and structures, on all disk types",
"No test contains a GEOS file beyond a few directory entries.",
[D+"geos/file.rs",D+"geos/mod.rs",D+"directory.rs"],
[("VLIR index parsing, record_start","src/disk/geos/file.rs"),("GEOSInfo::from_bytes/to_bytes","src/disk/geos/mod.rs")],
["record_count, record, geos_info, occupied_sectors"])
p("C15","GEOS Convert streams decode back to the original file",
"The Convert-format stream produced for any GEOS file contains the signature, directory entry, info block, for VLIR files the index of block counts and last-byte offsets, and the records in order, each but the last padded to whole blocks, such that decoding it yields the original metadata and records. The stream is the same whatever buffer sizes it is read with, and it ends; for a file with a broken link it ends in that error.",
["inputs","schedules","configurations"],"all GEOS sequential and VLIR files and all sequences of read buffer sizes",
"No test reads a Convert stream.",
[D+"geos/reader.rs"],
[("state machine and process_vlir_index_block","src/disk/geos/reader.rs"),("Read for GEOSReader","src/disk/geos/reader.rs")],
["bytes of the stream vs independent decoder"])
p("C16","Results do not depend on how reads and writes are split up",
"Writing data in any division into write calls, with any flushes or writer re-opens in between, gives the same file contents, size and block count as writing it at once, and reading with any sequence of buffer sizes gives the same bytes as reading at once, with end-of-file reported only at the end. Reported byte counts equal the bytes transferred, also for the write that fills the disk.",
["schedules","inputs"],"all divisions of all byte strings into write calls, flushes, re-opens and read calls",
"Tests write and read each file in one go.",
[D+"chain.rs"],
[("ChainWriter::write/flush","src/disk/chain.rs"),("ChainReader::read","src/disk/chain.rs")],
["file contents, entry size, image bytes"])
p("C17","Independent open handles do not disturb each other",
"With any number of readers and writers on different files open at the same time on one disk, interleaved in any order with creating, renaming and deleting other files, and even with renaming of a file being written, every file ends up with exactly the bytes written to it, every reader delivers the contents of its file, and the disk stays consistent.",
["schedules","histories"],"all interleavings of steps of concurrently open readers and writers with directory operations on one disk",
"Tests have one handle open at a time.",
[D+"chain.rs",D+"mod.rs",D+"bam.rs",D+"file.rs"],
[("shared BAM and block device references","src/disk/mod.rs"),("increment_entry_blocks re-reads the entry","src/disk/chain.rs")],
["file contents, directory, raw consistency"])
p("C18","PETSCII conversion and padding are faithful",
"PETSCII codes display as the characters of the C64's upper/lower case set (codes without one as U+FFFD); converting text maps each such character to the lowest code that displays as it and every other character to the same replacement code 0x7F, one code per character, so text made of translatable characters survives the round trip and printing PETSCII and parsing it back is stable. Padding and unpadding return the original string of up to the field size, fill with the pad byte, and refuse longer strings without writing.",
["inputs"],"all Unicode strings, all byte strings, all field sizes and pad bytes",
"Unit tests convert a few strings and one table.",
["src/petscii.rs"],
[("tables and from_str_lossy","src/petscii.rs"),("write_bytes_with_padding/from_padded_bytes","src/petscii.rs")],
["conversion results"])
p("C19","Sprite rendering shows every pixel in its place",
"Rendering a 24x21 sprite as text gives 11 lines of 12 block characters whose quadrants are exactly the pixels of the sprite (the missing 22nd row being blank), so the bitmap can be recovered from the text; sprite bytes survive conversion unchanged. The rendering of an info block pairs these lines with its text fields.",
["inputs"],"all 63-byte sprites and all info blocks",
"There are no sprite tests.",
["src/sprite.rs",D+"geos/mod.rs"],
[("to_unicode","src/sprite.rs"),("GEOSInfo Display","src/disk/geos/mod.rs")],
["rendered text"])
p("C20","Disk header fields are read permissively and rewritten without loss",
"For any header block (a 1571 header must carry its double-sided mark) the disk opens and reports the stored name, id, DOS version, format types and GEOS marker; changing header fields and storing the header changes only those fields and the standard padding bytes, survives re-opening, and leaves availability data, GEOS data and all other bytes alone.",
["inputs","configurations"],"all header block contents, all field changes, all disk types",
"Unit tests use ten recorded headers and one fixed change.",
[D+"header.rs",D+"mod.rs",D+"d64.rs",D+"d71.rs",D+"d81.rs"],
[("Header::read/write","src/disk/header.rs"),("flush_header, initialize","src/disk/d64.rs, d71.rs, d81.rs, mod.rs")],
["header, name, raw bytes"])
p("C21","Hex dumps show every byte of the image, file and error table",
"The dump of a disk lists every track and sector of the geometry exactly once, in order, with all 256 bytes in hex and text form, followed by the error table if there is one; the dump of a file lists each record with all its bytes.",
["inputs","configurations"],"all image contents, geometries and file kinds",
"No test looks at dump output.",
[D+"block.rs","src/util/mod.rs",D+"file.rs"],
[("hexdump","src/util/mod.rs"),("BlockDevice::dump","src/disk/block.rs"),("FileOps::dump","src/disk/file.rs")],
["dump text parsed back"])
p("C22","The cdisk tool performs exactly the operation it was asked for",
"Each cdisk command (create, format, write, append, read, rename, delete, dir, bam show/allocate/free, validate, dump, geosread) has the effect on the image and host files, and prints the result, that its description and the library define, for every image type; a command that fails says so on standard error and in its exit status and leaves the image as it was, except that writing or appending more than the disk can hold keeps the part that fits. Commands that only read never change the image and also work on write-protected images.",
["histories","inputs","configurations"],"all sequences of cdisk commands with all arguments on all image types",
"There are no tests of the program.",
["src/bin/cdisk.rs"],
[("cmd_* functions","src/bin/cdisk.rs")],
["image bytes, host files, standard output and error"])
p("C23","Chains of blocks are followed exactly, and bad ones are reported",
"Reading a file delivers the data bytes of each block of its chain in link order, the last block contributing only its used part, wherever the blocks lie; reading delivers what precedes the break and then reports the specific error if the chain loops, leaves the disk, or ends in an invalid link, and never presents such a file as complete. The list of occupied blocks, the record access (a file that is not a VLIR file is one record, number 0, and any other record number is an error) and appending agree with reading on the same chain.",
["inputs","configurations"],"all chain shapes and placements on all disk types (including tracks 36-40 of 40-track images), good or bad",
"Tests only read chains the library itself has written on a blank disk.",
[D+"chain.rs",D+"file.rs"],
[("ChainIterator, ChainLink, ChainReader","src/disk/chain.rs"),("occupied_sectors","src/disk/file.rs")],
["reader output and errors, occupied_sectors"])
p("C24","Stopping in the middle of an operation never harms other files",
"If the process stops at any point during creating, writing, appending, renaming or deleting a file, the image left behind still opens, its directory can be read, and every other file has its entry and contents intact; the file being written reads as at least its previously flushed contents and at most what was being written, and a file being renamed has either name.",
["crash_points","histories"],"all points between two sector updates of all operations, in all reachable disk states",
"No test interrupts an operation.",
[D+"chain.rs",D+"mod.rs",D+"directory.rs",D+"file.rs",D+"bam.rs"],
[("ordering of block, directory and link updates","src/disk/chain.rs, src/disk/mod.rs")],
["image snapshot before every sector write"],"snapshot callback before each sector write (cfg cbm_verif)")
p("C25","Initializing a disk makes every view follow the stored bytes",
"After blocks of the header, the map or the directory were rewritten (by write_sector or by formatting), initialize() makes the disk report exactly what a fresh open of the same bytes reports: name, id, GEOS marking, map, free count, directory, and where the next blocks go. Map references, file handles and writers obtained before use the new map, never a remembered old one, and are refused once the disk is no longer formatted; a disk without a valid header (or a 1571 image without its double-sided mark) is refused as Unformatted by every operation except raw sector access, listing all sectors and formatting, and stays unchanged by them.",
["histories","inputs"],"all pairs of images, all sets of rewritten blocks, all handles held over the change, all operations after it",
"The tests open each image once and never rewrite header or map below an open disk.",
[D+"d64.rs",D+"d71.rs",D+"d81.rs",D+"mod.rs",D+"bam.rs"],
[("initialize, set_bam, set_header, set_disk_format, is_formatted checks","src/disk/mod.rs, src/disk/d64.rs, src/disk/d71.rs, src/disk/d81.rs")],
["all observers of the disk after initialize(), and the image bytes"])
p("C26","Each operation changes only the bytes it concerns",
"Creating or appending to a file changes only that file's directory entry, blocks that were free and are now allocated to it, the link and unused part of its last block, the map bytes of the tracks concerned, and the link of the last directory block when a directory block is added; renaming changes only the name in the entry; deleting changes only the entry's type byte and the map, leaving the data in place. Reading, re-opening and refused requests change nothing (but for an empty directory block linked in for an entry that could not be made): other files' blocks, free blocks, the header, GEOS data, tracks beyond the map and the error table stay byte for byte what they were.",
["histories","inputs"],"all operations in all reachable states of all image types, over every byte of the image",
"The tests compare file contents, never the rest of the image.",
[D+"mod.rs",D+"directory.rs",D+"file.rs",D+"bam.rs",D+"chain.rs",D+"image.rs",D+"block.rs"],
[("sector and entry updates","src/disk/chain.rs, src/disk/directory.rs, src/disk/file.rs, src/disk/bam.rs")],
["image bytes before and after every operation"])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        assert x["statement"].count(". ")<=2,(x["id"],x["statement"].count(". "))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
