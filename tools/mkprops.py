#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are kept)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "A built disc reads back exactly what was put in, under any legal I/O",
  "For every set of partitions (disc header, bi2, apploader, executable, file tree, file contents with any padding, ticket and key, certificates, region) built into a destination that may accept or return fewer bytes than asked or report interruptions, a successful build can be opened again, lists the same partitions in order, and every object and every file reads back byte-identical under its own path. This holds for every file size, tree shape and position relative to encryption block and group boundaries, for several partitions, and for partitions whose data passes 4 GiB.",
  ["inputs", "schedules"], "all partition contents and layouts x all legal short-transfer / interruption schedules of the destination",
  "There is no test of the builder at all; the only writer test writes two groups to an in-memory cursor that never shortens a transfer and has part of its assertions commented out.",
  ["src/builder.rs", "src/reader_writer.rs", "src/new_reader.rs", "src/fst.rs", "src/structs.rs", "src/window.rs"],
  [("one-group write-back cache with dirty tracking and reload of earlier groups", "src/reader_writer.rs write/flush/do_load_group"),
   ("two-pass file system table (placeholder, then final)", "src/builder.rs add_partition"),
   ("group-cached decrypting reader", "src/new_reader.rs EncryptedPartState")],
  ["WiiDiscBuilder::create/add_partition/finish", "WiiIsoReader::open/open_partition", "WiiPartitionReadInfo::*"])

p("C02", "Every successful build is a valid, self-consistent Wii disc image",
  "Whenever a build reports success, the stored image is valid when judged independently of the library: every data block matches its H0, H1, H2 and H3 hashes, the global hash table matches the title metadata (content hash, content size, and a metadata hash that starts with a zero byte), every other ticket, title-metadata, certificate and header field is the one supplied, and the partition table, partition headers and file-system table describe where the data really lies, with no two regions overlapping. This holds for any legal short-transfer or interruption behaviour of the destination and for every group of every partition, including groups that were written, evicted and rewritten.",
  ["inputs", "schedules"], "all partition contents and layouts x all legal transfer schedules; every group of the produced image is checked",
  "The existing test never looks at hashes, headers, tables or metadata, and the reader does not verify hashes, so no read-back test can notice a wrong hash.",
  ["src/reader_writer.rs", "src/builder.rs", "src/fst.rs", "src/structs.rs"],
  [("hash tree computed on eviction and flush", "src/reader_writer.rs hash_encrypt_block"),
   ("title metadata patched and fakesigned after the data", "src/builder.rs add_partition"),
   ("disc tables written last", "src/builder.rs finish")],
  ["bytes of the destination stream after finish"])

p("C03", "Every successful read returns the disc's true bytes, for any read history",
  "For any well-formed disc (several partitions spread over the four partition tables, any key index, any layout, positions beyond 4 GiB), any interleaving of reads, seeks, bulk reads, whole-object reads (title metadata, certificates, bi2, apploader, executable, file-system table) and file reads over one or several open partitions of one disc, and any source that returns short or interrupted reads, each read returns exactly the bytes the disc holds there. A read at or past the end of the partition yields end-of-data, and a bulk read at a given offset leaves the current position unchanged.",
  ["histories", "schedules", "inputs"], "all well-formed discs x all interleaved read histories x all legal short-read / interruption schedules",
  "No test opens a disc; the reader, its group cache and its shared file position are never exercised.",
  ["src/new_reader.rs", "src/window.rs", "src/fst.rs", "src/structs.rs"],
  [("single-group decrypted cache keyed by group number", "src/new_reader.rs get_decrypted_block_data/do_load_group"),
   ("seek before every access of the shared file", "src/new_reader.rs, src/window.rs ensure_seeked")],
  ["WiiIsoReader", "WiiPartitionReadInfo", "CryptPartReader", "file windows"])

p("C04", "A failed read never poisons later reads",
  "If the source fails, ends early, or fails to seek during any operation on an open disc, that operation reports an error (or still returns true bytes), never wrong bytes. Once the source works again, every later operation on the same open disc, partitions and files succeeds and returns true bytes: no error leaves half-loaded or stale data behind.",
  ["fault_sequences", "histories"], "all placements of transient and lasting read/seek/end-of-file faults inside all read histories",
  "No test ever makes a stream fail.",
  ["src/new_reader.rs", "src/window.rs"],
  [("cache is invalidated before a group is loaded", "src/new_reader.rs do_load_group"),
   ("position only advances by what was delivered", "src/new_reader.rs read_into, src/window.rs read")],
  ["WiiIsoReader", "WiiPartitionReadInfo", "CryptPartReader", "file windows"])

p("C05", "A build never reports success for an image that was not fully stored",
  "Whatever write, read-back, seek or flush failure, full disk, zero-length or torn write, or failing content provider occurs at any point of a build, the build either returns an error or the image that the destination has accepted and flushed is complete and correct. No failure is swallowed, and a failing content provider's error is the one reported.",
  ["fault_sequences", "inputs"], "all placements of destination and provider faults inside all builds",
  "Tests write to an infallible in-memory cursor.",
  ["src/builder.rs", "src/reader_writer.rs", "src/window.rs", "src/fst.rs"],
  [("every I/O result is propagated", "src/builder.rs add_partition/finish, src/reader_writer.rs write/flush"),
   ("whole-buffer writes", "src/reader_writer.rs write_all of the group cache")],
  ["WiiDiscBuilder::add_partition/finish result", "bytes of the destination"])

p("C06", "A crash in mid-build never leaves a disc that offers wrong content",
  "If the building process dies at any instant, also in the middle of a write, while building into an empty destination, then every partition that can still be opened in what is left reads back complete and correct. Once finishing the disc has returned success, the disc survives a crash that drops everything not yet flushed by the destination.",
  ["crash_points", "inputs"], "all crash instants (every write boundary and torn writes) of all builds, library and command-line tool",
  "No test interrupts anything.",
  ["src/builder.rs", "src/reader_writer.rs", "iso-tool/src/main.rs"],
  [("disc header and partition table are written last", "src/builder.rs finish"),
   ("flush at the end of finishing", "src/builder.rs finish")],
  ["bytes of the destination after the crash, opened with WiiIsoReader and the reference parser"])

p("C07", "A failed partition add leaves the disc builder clean and usable",
  "If adding a partition fails for any reason (destination fault or failing content provider), the same disc builder can be used further: after retrying or adding other partitions, finishing yields a valid disc that lists exactly the partitions whose adding succeeded, in order, each complete and correct.",
  ["fault_sequences", "histories"], "all sequences of failing, retried and succeeding partition adds",
  "No test adds a partition, let alone one that fails.",
  ["src/builder.rs"],
  [("partition list and next data offset only change on success", "src/builder.rs add_partition")],
  ["WiiDiscBuilder::add_partition/finish", "WiiIsoReader::partitions"])

p("C08", "The image depends on the content only, not on the environment",
  "Building twice from the same content gives byte-identical images, whatever order the file system lists directories in, however reads and writes are split or interrupted, and whatever process-level randomness is drawn. This holds for builds from a directory (command line and Python) and for builds through a content provider.",
  ["schedules", "configurations"], "all directory listing orders x all legal transfer schedules x all random seeds of the process",
  "A test sees one listing order, one schedule and one seed.",
  ["src/dir_reader.rs", "src/fst.rs", "src/builder.rs", "src/reader_writer.rs"],
  [("entries are inserted in sorted order", "src/fst.rs add_node_iter"),
   ("no clock, no randomness, no dependence on transfer sizes", "src/builder.rs, src/reader_writer.rs")],
  ["bytes of the destination"])

p("C09", "A directory rebuild holds exactly the directory's files, or fails",
  "When a rebuild from a directory reports success, the disc holds exactly the regular files of the tree with their names and current contents, plus the system files, region, ticket, title metadata and certificates found there; a failed listing, open, stat or read, a missing required file, or a name that cannot be stored or collides with another ignoring ASCII case makes it fail with an error instead. A file whose size changes between being listed and being read is stored with the content and length actually read.",
  ["inputs", "fault_sequences", "schedules"], "all directory trees x all source-side faults and concurrent changes at any point x all listing orders",
  "The one directory test lists the crate's own src folder and counts entries.",
  ["src/builder.rs", "src/dir_reader.rs", "src/fst.rs", "iso-tool/src/main.rs", "disc-riider-py/src/lib.rs"],
  [("every directory entry is checked and propagated", "src/dir_reader.rs build_fst_from_directory_tree_rec"),
   ("length taken from the data read", "src/builder.rs add_partition"),
   ("required files must exist", "src/builder.rs try_open")],
  ["iso-tool rebuild exit status and output file", "rebuild_from_directory (Python)"])

p("C10", "An extraction that reports success is complete and exact",
  "When extracting partitions (Python) or system files (Python and command line) reports success, the destination holds every selected file, every system file, header, region, ticket, title metadata and certificates with exactly the disc's bytes. A source that fails or ends early, a disc that claims less data than its files need, and a destination that is full or fails to create or write all surface as an exception or a non-zero exit status, never as success and never as a crash.",
  ["fault_sequences", "inputs"], "all discs x all source and destination faults at any point of an extraction",
  "Neither the Python module nor the command-line tool has any test.",
  ["disc-riider-py/src/lib.rs", "src/new_reader.rs", "iso-tool/src/main.rs"],
  [("chunked copy loop with error propagation", "disc-riider-py/src/lib.rs extract_to"),
   ("system file extraction", "src/new_reader.rs extract_system_files")],
  ["WiiIsoExtractor.extract_to", "iso-tool extract-sys", "destination tree"])

p("C11", "Damaged discs and metadata give errors, never crashes",
  "For any disc whose metadata bytes (partition tables, partition header, ticket, disc header, file-system table, apploader or executable header) were flipped or overwritten, or that was cut off at any length, opening it and reading everything reachable either returns data or returns an error: no panic, no abort, no endless loop and no memory demand out of proportion to the real size of the image. The same holds for rebuilding from damaged ticket, title-metadata, certificate or boot files.",
  ["fault_sequences", "inputs"], "all stored-byte flips, overwrites and truncations of discs and of the metadata files of a rebuild directory",
  "No test reads a damaged structure.",
  ["src/fst.rs", "src/structs.rs", "src/new_reader.rs", "src/builder.rs"],
  [("structure checks while parsing the file-system table", "src/fst.rs read/transform_fst_rec"),
   ("key index and size checks", "src/structs.rs, src/new_reader.rs"),
   ("title-metadata shape check before patching", "src/builder.rs add_partition")],
  ["every public read operation", "WiiDiscBuilder::add_partition"])

p("C12", "Extraction never touches anything outside its destination",
  "Whatever names the disc's file-system table contains, including damaged or hostile ones (parent references, absolute paths, embedded separators, empty names), extraction creates, overwrites or removes nothing outside the chosen destination folder and leaves the source disc unchanged. A name that would lead outside makes the extraction fail with an error.",
  ["inputs", "fault_sequences"], "all file-system tables, including hostile and damaged ones",
  "No test extracts anything.",
  ["disc-riider-py/src/lib.rs", "src/new_reader.rs"],
  [("destination path built from checked name components", "disc-riider-py/src/lib.rs extract_to")],
  ["file-system calls made by WiiIsoExtractor.extract_to and iso-tool extract-sys"])

p("C13", "A window is an exact, bounded view of its stream",
  "Over any history of reads, exact reads, writes and seeks (from start, current position or end), with short transfers, interruptions and failures of the underlying stream at any point, and wherever the underlying stream stood before, a window behaves like a stand-alone seekable stream over exactly its own range: it returns and changes only bytes inside the range, an exact read succeeds exactly when the range has enough bytes left, and positions are relative to the window. A failed operation never moves the window's position past data that was not delivered, and a retry delivers the right bytes.",
  ["histories", "schedules", "fault_sequences"], "all operation histories x all transfer schedules and transient faults of the underlying stream",
  "Two short fixed scripts over an infallible cursor; neither calls an exact read with a known length nor a relative seek on a fresh window.",
  ["src/window.rs", "src/new_reader.rs"],
  [("position kept relative to the window, source re-positioned before each access", "src/window.rs"),
   ("length clamp", "src/window.rs bytes_left")],
  ["IOWindow", "open_file/open_window results"])

p("C14", "Edits to the file tree arrive exactly in the rebuilt disc",
  "For any history of adding, replacing, removing, renaming and looking up files and folders in a disc's file tree, the tree shows exactly the result of those edits (names compared ignoring ASCII case when adding), and a disc then built from it, with contents taken from the still open source disc or supplied anew, over any legal I/O schedule on both discs, contains exactly the edited tree with the right content behind every path. Nothing that was not edited changes.",
  ["histories", "schedules", "inputs"], "all edit histories followed by a rebuild that interleaves reads of the source disc with writes of the new one",
  "The tree tests are a few fixed edits; none rebuilds a disc from an edited tree.",
  ["src/fst.rs", "src/builder.rs", "src/new_reader.rs"],
  [("sorted insertion, lookup and removal", "src/fst.rs add_node_iter/find_node_iter/remove_node_iter"),
   ("serialisation with parent and end indexes", "src/fst.rs FstToBytes::write_to"),
   ("the library's own edited copy of a disc", "src/builder.rs build_copy, CopyBuilder")],
  ["Fst edit API", "WiiDiscBuilder::add_partition", "WiiPartitionReadInfo::get_fst/open_file"])

p("C15", "Progress reports are honest",
  "For content that does not change during the operation, progress starts at 0, never goes down while a partition is being worked on, never exceeds 100, reports 100 for a partition only once every byte of its file data has been taken from its source and all but at most the last encryption group has been handed to the destination, and has reached 100 when the operation succeeds on a partition with file data. This holds for building (library and command line) and for extraction (Python), for every mix of file sizes including empty files, and under any legal or failing I/O.",
  ["inputs", "schedules", "fault_sequences"], "all content mixes x all legal and failing I/O schedules",
  "No test observes progress.",
  ["src/builder.rs", "disc-riider-py/src/lib.rs"],
  [("byte-based progress, file-count-based when sizes are unknown", "src/builder.rs add_partition"),
   ("byte-based progress", "disc-riider-py/src/lib.rs extract_to")],
  ["progress callbacks", "iso-tool rebuild output"])

p("C16", "Every operation ends in a bounded number of I/O steps",
  "Whatever the streams do, including ending early, transferring nothing, failing forever, failing once, or being interrupted repeatedly, every open, read, extract and build operation returns after a number of I/O steps bounded by the amount of data it concerns; once faults stop, a retried operation completes. It neither spins nor panics.",
  ["fault_sequences", "schedules"], "all fault and interruption sequences, lasting and transient",
  "Tests use streams that always make progress.",
  ["src/reader_writer.rs", "src/new_reader.rs", "src/window.rs", "src/builder.rs", "disc-riider-py/src/lib.rs"],
  [("loops advance by what was transferred and stop on error or end of data", "src/new_reader.rs, src/reader_writer.rs, disc-riider-py/src/lib.rs")],
  ["number of stream operations per call"])

p("C17", "Extract, prune, rebuild gives back the same game",
  "For any well-formed disc, extracting its data partition, optionally removing files by a selection callback, and rebuilding from the extracted folder yields a disc with exactly the selected files and contents and the same bi2, apploader, executable, header fields, region, ticket and certificates, through the Python module and the command-line tool, under any legal splitting or interruption of the system calls and any directory listing order.",
  ["inputs", "schedules", "histories"], "all discs x all selections x all legal system-call schedules",
  "No test runs the Python module or the command-line tool, or a whole cycle.",
  ["disc-riider-py/src/lib.rs", "iso-tool/src/main.rs", "src/builder.rs", "src/new_reader.rs", "src/dir_reader.rs"],
  [("extraction layout equals the layout the rebuild expects", "disc-riider-py/src/lib.rs extract_to, src/builder.rs build_from_directory")],
  ["WiiIsoExtractor", "rebuild_from_directory", "iso-tool rebuild"])

p("C18", "Sessions and callbacks do not interfere with each other",
  "Any number of discs being read, extracted and built in one process, interleaved at content-provider and progress callbacks in any order, give the same results as each running alone. A Python progress callback that raises, or that itself uses other disc objects, changes nothing in what is extracted or built, a selection callback that raises keeps the file, and using an extractor from inside its own callback fails cleanly without harm.",
  ["schedules", "histories"], "all interleavings of concurrent sessions at callback points, nested and across threads",
  "Tests run one object at a time without callbacks.",
  ["src/builder.rs", "src/new_reader.rs", "src/reader_writer.rs", "disc-riider-py/src/lib.rs"],
  [("no shared mutable state between sessions", "all crates"),
   ("exclusive borrow of the extractor, callback results ignored", "disc-riider-py/src/lib.rs")],
  ["results of each session"])

p("C21", "What the programs report about a disc is true, in any order of calls",
  "Listing a disc's sections or a section's files (command line), and hashing the executable, listing or selecting files (Python), report exactly what the disc holds and what earlier selections left, in any sequence of calls on any number of extractor objects. If the disc cannot be opened or read, if the section does not exist or was not prepared, the call fails with an error instead of reporting something wrong, and one failed call does not make a later one fail or report something wrong.",
  ["histories", "fault_sequences", "schedules"], "all sequences of calls x all source faults and legal transfer schedules",
  "No test runs the command-line tool or the Python module; unit tests see no failing source.",
  ["iso-tool/src/main.rs", "disc-riider-py/src/lib.rs", "src/fst.rs", "src/new_reader.rs"],
  [("sections and file listings", "iso-tool/src/main.rs Sections/PrintFiles, src/fst.rs print_tree"),
   ("executable hash, listing, selection, prepared sections", "disc-riider-py/src/lib.rs get_dol_hash/test_print/remove_files_by_callback/prepare_extract_section")],
  ["iso-tool sections/print-files output and exit status", "WiiIsoExtractor results and exceptions"])

p("C19", "File names survive storage in the disc's character set",
  "Every name that the disc character set (Shift-JIS) can represent is stored and read back unchanged, and every other name is refused with an error.",
  ["inputs"], "all names",
  "Tests use ASCII names only.",
  ["src/fst.rs"], [("encode with error flag", "src/fst.rs rec_build_fst_bytes"), ("decode with error flag", "src/fst.rs read_shiftjs")],
  ["FstToBytes::try_from", "Fst::read"])

p("C20", "Fixed-layout structures are encoded and decoded as inverses",
  "Ticket, title metadata, certificate, partition header, disc header and executable header values are written in their documented fixed layout and decoding the bytes gives the same value back.",
  ["inputs"], "all field values",
  "No test encodes one of these structures.",
  ["src/structs.rs", "src/lib.rs"], [("declarative layouts", "src/structs.rs")],
  ["structs::*"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P))
