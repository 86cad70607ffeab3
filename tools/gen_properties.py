#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "Round trip: the archive contains exactly the entries that were added",
 "For every set of entries a builder accepts (any names, contents and order), reading the archive from start to end yields a ZIP file from which an independent reader recovers exactly those entries: same number, same insertion order, same UTF-8 names, same contents, and a stored CRC-32 that matches the contents. Nothing is added, dropped, duplicated or reordered, for any entry count including zero and counts above 65535.",
 ["inputs"], "all sequences of entries (name bytes 0..65535, any data, any count)",
 "Unit tests sample 256 archives of up to 64 entries of at most 512 bytes with short names, always read with one reader implementation; larger names, data around the internal block size, data that looks like ZIP structures and large counts are never unpacked.",
 ["src/builder.rs", "src/reader.rs", "src/structs.rs", "src/entry_data.rs"],
 [("entries are emitted local header, data, descriptor, then central directory, end records", "src/reader.rs: Chunk::next, ReadState::read"),
  ("insertion ordered map of entries", "src/builder.rs: Builder::add_entry, Builder::build")],
 [("current_chunk", "what is being emitted", "src/reader.rs: ReadState")],
 ["Reader as AsyncRead, the complete byte stream"])

prop("C02", "Every byte of the archive belongs to one consistent ZIP64 structure",
 "The archive is exactly the concatenation, from offset 0 and without gaps or overlaps, of one local record (header, name, data, data descriptor) per entry, one central directory record per entry in the same order, and the end-of-central-directory records. Local header, data descriptor and central directory of an entry agree on name, method (stored), timestamp, CRC-32, sizes and offset, and all offsets, counts and sizes are carried correctly in their ZIP64 fields (the 32/16 bit fields hold the all-ones marker), so both a reader that starts from the end and a forward-only streaming reader decode the same entries.",
 ["inputs"], "all archives; every field of every structure of each archive",
 "The tests unpack through readers that look only at the central directory, so errors in local headers, descriptors, redundant fields, local offsets or gaps are invisible to them.",
 ["src/reader.rs", "src/structs.rs", "src/builder.rs"],
 [("packing of the record structures", "src/structs.rs"),
  ("filling in the records", "src/reader.rs: read_local_header, read_data_descriptor, read_cd_file_header, read_eocd"),
  ("offset and size computation", "src/builder.rs: Builder::build, local_header_size, cd_header_size")],
 [("offset / Sizes", "precomputed positions", "src/reader.rs: ReaderEntry.offset, Sizes")],
 ["Reader as AsyncRead, the complete byte stream"])

prop("C03", "The announced size is exactly the number of bytes produced",
 "The size announced by a builder equals the size announced by the reader built from it, and equals the number of bytes a read from the start delivers before end of file, for every archive. The announced size never changes during the life of the reader, whatever is read, seeked, cloned or failed meanwhile, and it stays correct when entries are removed or reordered through the builder's entry map before building.",
 ["inputs", "histories"], "all archives, and all histories of adding (also failing adds), editing, reading, seeking, cloning",
 "Tests compare sizes for random small archives built once by successful adds; rejected adds, edits of the entry map, extreme sizes and sizes queried mid-history are not sampled.",
 ["src/builder.rs", "src/reader.rs"],
 [("running total in add_entry, recomputation in build", "src/builder.rs: add_entry, size, build"),
  ("Sizes are immutable in the reader", "src/reader.rs: Reader.sizes")],
 [("total_size", "running total size of the zip", "src/builder.rs: Builder, src/reader.rs: Sizes")],
 ["Builder::size", "Reader::size", "count of bytes delivered by AsyncRead"])

prop("C04", "Random access: bytes depend only on the position, never on the history",
 "After any history of reads, partial reads and seeks (absolute, relative to the current position or to the end, inside, at or past the end), a read at position p delivers exactly the bytes the archive has at p, and end of file exactly at or beyond the archive's size. This holds whether or not checksums are already known or were supplied in advance, and at every position: inside headers, names, data, descriptors, central directory and end records.",
 ["histories", "inputs"], "all operation histories over one reader, all archives, all seek targets",
 "Tests perform one or two seeks followed by a read to the end on a random archive; sequences that mix seeks with partially consumed structures, interrupted operations and CRC side computations form an unbounded space.",
 ["src/reader.rs", "src/crc_reader.rs", "src/entry_data.rs"],
 [("seek_from_start locates the chunk and records how much to skip", "src/reader.rs: ReadState::seek_from_start"),
  ("skipping across and inside chunks", "src/reader.rs: ReadState::read, read_packed_struct, read_str, read_from_staging, read_entry_data"),
  ("seeking in sources", "src/crc_reader.rs: CrcReader::seek, src/entry_data.rs: AsRefReader::start_seek")],
 [("to_skip, staging_buffer, chunk_processed_size, current_chunk", "cursor of the reader", "src/reader.rs: ReadState"),
  ("pinned", "open future or reader of the current entry", "src/reader.rs: ReaderPinned")],
 ["AsyncRead::poll_read", "AsyncSeek", "Reader::seek_from_start_mut", "Reader::seek_from_start_pinned"])

prop("C05", "The byte stream is independent of scheduling, short reads and buffer sizes",
 "For every way in which the sources delay (any operation may be pending any number of times), return short reads, and the caller sizes its read buffers, polls spuriously, abandons and resumes reads, the delivered byte stream is identical to the one produced from in-memory data with one big buffer. The result does not depend on the type of source used for the same data (slices, vectors, Bytes, custom asynchronous sources).",
 ["schedules", "inputs"], "all schedules of pending/ready/short results of the sources, all caller buffer size sequences",
 "The only delayed source in the tests alternates pending and ready in a fixed pattern and is read front to back with a constant buffer size; other interleavings are not exercised.",
 ["src/reader.rs", "src/crc_reader.rs", "src/entry_data.rs", "src/bytes.rs"],
 [("state kept across pending polls", "src/reader.rs: ReadState::read, read_entry_data, ReaderEntry::get_reader, get_crc"),
  ("two phase seek", "src/crc_reader.rs: CrcReader::seek")],
 [("ReaderPinned, seek_in_progress, hasher", "progress of the current source operation", "src/reader.rs, src/crc_reader.rs")],
 ["AsyncRead::poll_read results per poll"])

prop("C06", "The reported position is always exact",
 "At every moment the position reported by the reader equals the position last sought to plus the number of bytes actually delivered since then, including after polls that delivered data only because a later part was not ready yet, and including positions past the end. Seeks report the position they resolve to; seeks that resolve to a negative or unrepresentable position fail with an invalid-input error (the documented SeekingBeforeStart for negative ones), do not panic, and leave the position and the following bytes unchanged.",
 ["histories", "schedules"], "all histories of polls and seeks under all source schedules",
 "Tests look at the position once, right after a single read of a synchronous source; the position after interrupted reads, at extreme offsets and after failed seeks is not checked.",
 ["src/reader.rs"],
 [("position bookkeeping in read and seek_from_start", "src/reader.rs: ReadState::read, seek_from_start, Reader::tell"),
  ("resolution of relative seeks", "src/reader.rs: AsyncSeek::start_seek")],
 [("position", "current position in the file", "src/reader.rs: ReadState.position")],
 ["Reader::tell", "AsyncSeek::poll_complete", "AsyncSeek::start_seek"])

prop("C07", "Checksums are always the checksums of the data, and can be cached",
 "Every CRC-32 the reader reports or writes is the CRC-32 of the complete data of that entry, no matter in which order, how partially and how interrupted the entry was read or skipped before. Checksums once known never change or disappear, and every entry for which a record carrying its checksum has been delivered has a known checksum; supplying reported checksums to a new builder yields a byte-identical archive.",
 ["histories", "schedules", "inputs"], "all histories of reads and seeks (data read fully, partly, skipped) under all schedules",
 "Tests check checksums for a single entry in four fixed seek scenarios; combinations of interrupted skipping, repeated partial reads and several entries are not covered.",
 ["src/reader.rs", "src/crc_reader.rs"],
 [("hash while reading, valid only if the source was not seeked", "src/crc_reader.rs: CrcReader"),
  ("recomputation on demand", "src/reader.rs: ReaderEntry::get_crc"),
  ("cached value", "src/builder.rs: BuilderEntry::crc32, src/reader.rs: Reader::crc32s")],
 [("crc32", "known checksum of an entry", "src/reader.rs: ReaderEntry.crc32"), ("did_seek", "hash is not of the whole data", "src/crc_reader.rs")],
 ["Reader::crc32s", "CRC fields in the archive"])

prop("C08", "Wrong size or checksum declarations never yield a quietly corrupt archive",
 "If a source delivers fewer or more bytes than it declared, or data that contradicts a checksum supplied for it, then reading through that entry's data from before or at its start ends in the corresponding error naming the entry (sources which declared no bytes are never asked for any), for every schedule and buffer size; the stream never continues past that entry, not even when reading is retried, and never delivers more data bytes for an entry than were declared. Everything delivered before the error is what the declared archive would contain at that position.",
 ["inputs", "schedules", "fault_sequences"], "all declared/actual size pairs, all wrong checksums, all schedules, also read through length-limited consumers",
 "Tests use one entry with two fixed size pairs and one wrong checksum, read to the end in one go.",
 ["src/reader.rs"],
 [("processed size compared with the declared size at the end of entry data", "src/reader.rs: read_entry_data"),
  ("checksum comparison", "src/reader.rs: read_entry_data")],
 [("chunk_processed_size", "bytes of the entry seen so far", "src/reader.rs: ReadState")],
 ["AsyncRead results", "ReadError::SizeMismatch", "ReadError::Crc32Mismatch"])

prop("C09", "Source I/O errors are reported, lose no data and are recoverable",
 "When opening, reading or seeking a source fails at any point, the failure reaches the caller as an error with the source's error kind, no bytes are delivered by the failing call, and no panic occurs. After the error the position is unchanged, and both simply reading again and seeking anywhere then continue with exactly the archive's bytes (or report further errors of the source), for any number and placement of failures.",
 ["fault_sequences", "schedules", "histories"], "all placements of open/read/seek failures, transient and persistent, in all histories",
 "No existing test injects an I/O error into a source.",
 ["src/reader.rs", "src/crc_reader.rs", "src/bytes.rs"],
 [("error propagation", "src/reader.rs: get_reader, get_crc, read_entry_data, zippity_ready! in ReadState::read"),
  ("seek state", "src/crc_reader.rs: CrcReader::seek")],
 [("ReaderPinned", "half finished source operations", "src/reader.rs"), ("seek_in_progress", "two phase seek", "src/crc_reader.rs")],
 ["AsyncRead::poll_read errors", "Reader::tell", "bytes delivered after an error"])

prop("C10", "Archives beyond the 4 GiB and 65535 limits are correct up to 2^64-1 bytes",
 "For entries and archives of any size up to 2^64-1 bytes in total and any number of entries, sizes, offsets and counts recorded in the archive are exact and every position is reachable by seeking and delivers the right bytes. Seeking within such archives takes effort proportional to the number of entries, not to the amount of data, when checksums are known.",
 ["inputs", "histories"], "entry sizes and offsets over the whole u64 range, entry counts over 16 bit",
 "Tests only measure the length of one archive slightly over 4 GiB and one with 65537 empty entries; no field value or content of such an archive is checked, and nothing near 2^32 boundaries or 2^64 is tried.",
 ["src/builder.rs", "src/reader.rs", "src/structs.rs"],
 [("64 bit arithmetic and ZIP64 fields", "src/builder.rs: build; src/reader.rs: read_*; src/structs.rs"),
  ("skipping whole chunks", "src/reader.rs: ReadState::read, seek_from_start")],
 [("offset, Sizes, to_skip", "64 bit positions", "src/reader.rs")],
 ["bytes read at selected positions of huge virtual archives", "source access log"])

prop("C11", "Builder admission: exactly the representable entries are accepted, atomically",
 "Adding an entry succeeds if and only if its name is at most 65535 bytes of UTF-8, the name is not yet present, and the resulting archive would be at most 2^64-1 bytes long; otherwise the documented error naming the entry is returned. A rejected add leaves the builder exactly as it was: same entries in the same order with the same metadata, same size, and later adds and the built archive are unaffected.",
 ["inputs", "histories"], "all sequences of adds (accepted and rejected), all name lengths and sizes around the limits",
 "Tests probe one too long name and three too large sizes, never look at the state after a rejection and never at the exact boundary on both sides.",
 ["src/builder.rs"],
 [("checks in add_entry", "src/builder.rs: Builder::add_entry"), ("header size computation", "src/builder.rs: local_header_size, cd_header_size, eocd_size")],
 [("entries, total_size", "content of the builder", "src/builder.rs: Builder")],
 ["Builder::add_entry", "Builder::get_entries", "Builder::size", "archive built afterwards"])

prop("C12", "File type and permissions arrive in the archive as set",
 "The unix mode recorded for an entry is determined by the last calls made to its metadata setters: the file type bits of the last type set (file by default), and permission bits that are 0777 for symlinks, the low nine bits of the mode last set, or the documented defaults (0644/0444, plus 0111 for directories) for read-write and read-only. Setters influence only the entry they are called on, in any order and combination, and taking them from filesystem metadata equals setting them explicitly.",
 ["inputs", "histories"], "all sequences of metadata setter calls on all entries of a builder, all 32 bit mode values",
 "Tests check eight fixed single-setter combinations on one-entry archives.",
 ["src/builder.rs", "src/reader.rs", "src/structs.rs"],
 [("permission and type model", "src/builder.rs: BuilderEntry setters, get_external_attributes"),
  ("version made by = unix, external attributes", "src/reader.rs: read_cd_file_header")],
 [("file_type, permissions", "metadata of an entry", "src/builder.rs: BuilderEntry")],
 ["external attributes and host system in the central directory"])

prop("C13", "Timestamps: exact within the DOS range, documented fallback outside it",
 "A modification time between 1980-01-01 and 2107-12-31 set by any of the setters is recorded in local header and central directory exactly, with seconds rounded down to even. For unrepresentable values, or when no time converter is set, the strict setters return nothing and leave the entry as it was, the or-default setters reset the time to 1980-01-01T00:00:00, entries never given a time carry 1980-01-01T00:00:00, and no value of any parameter makes a setter panic; the converter used is the one in effect when the entry was added.",
 ["inputs", "histories"], "all values of the date and time fields and of system times, all time zones, all sequences of setters and converter changes",
 "Tests cover the valid range and one invalid year on fresh entries; fallback after an earlier value, the actual default written to the archive and extreme system times are not sampled.",
 ["src/builder.rs", "src/structs.rs", "src/reader.rs"],
 [("range checks and packing", "src/structs.rs: DosDatetime::new"),
  ("setters", "src/builder.rs: datetime_fields, datetime_fields_or_default, datetime_system, datetime_system_or_default, datetime, datetime_or_default, metadata"),
  ("conversion", "src/builder.rs: system_timezone_converter")],
 [("datetime", "timestamp of an entry", "src/builder.rs: BuilderEntry.datetime")],
 ["timestamp fields of local header and central directory", "return values of the setters"])

prop("C14", "Sources are touched only when and as much as needed",
 "Building, querying sizes, seeking, cloning and taking never access source data, empty entries are never opened, and at most one source reader is open at a time and is released when its entry is done, or on seek, take and drop. A front-to-back read opens each non-empty source exactly once and reads each of its bytes exactly once; when the checksums are known, reading a range opens only the sources whose data overlap the range, and reaches a position inside an entry by seeking in the source instead of reading up to it; when they are not known, a forward read from any position still opens each source at most once and reads no byte twice.",
 ["histories", "schedules", "inputs"], "all histories and schedules, all archives",
 "Only the never-open-empty-entries part has a test; opens, bytes read and simultaneously open sources are not observed by any test.",
 ["src/reader.rs", "src/builder.rs", "src/entry_data.rs"],
 [("lazy opening", "src/reader.rs: ReaderEntry::get_reader, get_crc"),
  ("break before entry data, skip whole chunks", "src/reader.rs: ReadState::read"),
  ("seek when checksum is known", "src/reader.rs: read_entry_data")],
 [("ReaderPinned", "the open source", "src/reader.rs")],
 ["event log of an instrumented source: open, read, seek, drop"])

prop("C15", "Memory use is bounded independently of the amount of data",
 "Heap memory used while reading, skipping, seeking, checksumming and streaming an archive stays below a small constant plus an amount proportional to entry names and metadata, however large the entries are, however they are accessed and however large the caller's total transfer is. Taking the state out of a reader allocates nothing.",
 ["inputs", "histories"], "all archives and access histories",
 "Tests never measure memory; an implementation that buffers whole entries passes all of them.",
 ["src/reader.rs", "src/bytes.rs"],
 [("fixed size read buffer and one-chunk staging buffer", "src/reader.rs: READ_SIZE, get_read_buf, read_from_staging"),
  ("one block per stream item", "src/bytes.rs: BytesStream::poll_next")],
 [("staging_buffer", "buffered output", "src/reader.rs: ReadState"), ("buffer", "stream block", "src/bytes.rs")],
 ["counting global allocator of the harness process"])

prop("C16", "Cloned and taken readers continue independently and identically",
 "A clone made at any moment, even in the middle of pending operations, reports the same position, size and known checksums as the original and from there delivers the same bytes; operations on one never affect the other. Taking the state out of a reader returns a reader with the position, size, known checksums and bytes of the original, and leaves behind a reader that behaves exactly like the empty archive.",
 ["histories", "schedules"], "all points of all histories at which a clone or take can be made",
 "Tests clone only freshly seeked readers and take readers without comparing content or known checksums; never in the middle of a read or with pending sources.",
 ["src/reader.rs", "src/bytes.rs"],
 [("clone re-seeks to the told position", "src/reader.rs: Clone for Reader"), ("take_pinned", "src/reader.rs: Reader::take_pinned, new_empty_file")],
 [("position", "the only state carried over besides entries", "src/reader.rs: ReadState.position")],
 ["all handles of one history compared with one model each"])

prop("C17", "Polling contract: no lost wakeups, no protocol violations, bounded progress",
 "A read or stream poll reports pending only if some source operation polled during that very call was pending with the caller's current waker, and delivers no bytes in that case; once sources are ready it makes progress in every call, finishing in a number of polls bounded by the work to do. Sources are used within their contract: no open operation is polled after it finished, no read or second seek is issued while a seek is unfinished, and buffer content placed by the caller before the call is left alone.",
 ["schedules", "histories"], "all schedules of pending/ready results, wakers that change between polls, spurious polls",
 "Tests run under an executor with a source that wakes itself immediately, which hides missing wakeups, busy polling and protocol errors.",
 ["src/reader.rs", "src/crc_reader.rs", "src/bytes.rs", "src/filesystem_entry.rs"],
 [("every pending is propagated with the caller's context", "src/reader.rs: zippity_ready!, read_entry_data, get_crc, get_reader"),
  ("two phase seek adapter", "src/crc_reader.rs")],
 [("ReaderPinned, seek_in_progress", "state of the source operation", "src/reader.rs, src/crc_reader.rs")],
 ["instrumented source and waker"])

prop("C18", "A directory tree is archived completely and faithfully",
 "Adding a directory recursively yields exactly one entry for each object below it (and one for the directory itself if a root name is given), named by its path relative to the directory with the normalised root name as prefix and a trailing slash exactly on directories. Regular files carry their bytes, symlinks their target path and are never followed, directories and special files carry no data, and each entry has the type, permission bits and modification time of the object; adding single objects by explicit name behaves the same way. If a directory can not be walked or a name is already taken, adding fails with an error instead of leaving something out, also when other objects come and go meanwhile, and entries that were there before stay as they were.",
 ["inputs", "configurations"], "all directory trees (names, nesting, types, modes, times, symlinks incl. dangling and cyclic), all root names",
 "Tests use trees of lowercase names without symlinks or special modes and one fixed tree with two symlinks; permissions, times, special files, cyclic or outward links are not covered.",
 ["src/filesystem_entry.rs", "src/builder.rs"],
 [("traversal with lstat semantics", "src/filesystem_entry.rs: add_directory_recursive, EntryType::with_metadata"),
  ("name construction", "src/filesystem_entry.rs: make_entry_name, sanitize_entry_name_slashes"),
  ("metadata transfer", "src/builder.rs: BuilderEntry::metadata")],
 [("FilesystemEntry", "what will be read later", "src/filesystem_entry.rs")],
 ["archive built from a generated tree, compared with an independent walk of the tree"])

prop("C19", "Changing files cause an error or a consistent archive, never a corrupt one",
 "If files are truncated, extended, overwritten, replaced or removed at any point between being added and being read, a front-to-back read of the archive either fails with an error or delivers a well-formed archive of exactly the announced size in which every stored CRC-32 matches the stored data. Unchanged files are always read successfully with the right content, at any seek position. A file that can not be opened or read gives the operating system's error at the position of its data, and reading can go on from there once the file is back.",
 ["fault_sequences", "histories"], "all modifications at all points of the reading history",
 "Tests never modify a file after it has been added.",
 ["src/filesystem_entry.rs", "src/reader.rs"],
 [("size captured when added, compared while reading", "src/filesystem_entry.rs: EntryType::File, src/reader.rs: read_entry_data"),
  ("checksum computed from the delivered bytes, compared with a known one", "src/reader.rs: read_entry_data")],
 [("size", "size promised", "src/filesystem_entry.rs: EntryType::File")],
 ["complete reads of archives over a scratch directory that is modified during reading"])

prop("C20", "HTTP responses: status, headers and body agree with the requested range",
 "For every request without a Range header the response is 200 with the whole archive; for every valid satisfiable single byte range it delivers exactly the requested slice of the archive with matching Content-Length and Content-Range and status 206 (200 when the slice is the whole archive); a set of several ranges is answered by exactly one requested slice or refused as unsatisfiable. Malformed ranges give 400, ranges that cannot be satisfied give 416 with the total size, every successful response says the content type is application/zip and that byte ranges are accepted, and for every header value the body has exactly the announced length and is the announced slice, under any source schedule.",
 ["inputs", "schedules"], "all Range header values, all archives, all source schedules",
 "Tests check headers for one range on an empty archive and bodies for well-formed ranges made by one client library; boundaries, suffixes, malformed and multiple ranges, and delayed sources are not covered.",
 ["src/actix_web.rs", "src/bytes.rs", "src/reader.rs"],
 [("range parsing and header construction", "src/actix_web.rs: respond_to"), ("body truncation", "src/actix_web.rs: Body::poll_next")],
 [("remaining", "bytes still to deliver", "src/actix_web.rs: Body")],
 ["HttpResponse status, headers and body polled to the end", "loopback TCP sessions"])

prop("C21", "HTTP hand-back: the reader comes back exactly once, however the request ends",
 "When a responder with a hand-back channel is used, the receiver gets exactly one reader after the response has been completed, aborted at any point, rejected, or never sent, even if sources fail; it has the size of the original and all checksums learnt during the response, and it still delivers the archive's exact bytes when used again. A body never delivers bytes that are not the announced slice, and a source failure or a wrongly declared source in the requested range surfaces as a body error, never as a complete response with wrong content.",
 ["schedules", "fault_sequences", "histories"], "all abort points, all source schedules and failures",
 "Tests drop the responder once without reading or read it completely; aborts in the middle, failing sources and the usability of the returned reader are not covered.",
 ["src/actix_web.rs", "src/reader.rs", "src/bytes.rs"],
 [("PinnedDrop sends the taken reader", "src/actix_web.rs: Inner"), ("take_pinned", "src/reader.rs: take_pinned")],
 [("drop_channel", "where the reader goes", "src/actix_web.rs: Inner")],
 ["oneshot receiver, body items"])

prop("C22", "The byte stream yields the archive in non-empty blocks and loses nothing",
 "The concatenation of the blocks of a byte stream is exactly the archive from the position at which the stream was created, each block is non-empty, and after the end the stream keeps reporting the end. Converting back into a reader, cloning, or repositioning the contained reader after any number of blocks or pending polls continues exactly where the delivered blocks ended.",
 ["histories", "schedules"], "all interleavings of stream polls, pending sources, repositioning, cloning and conversion",
 "Tests concatenate the blocks of freshly created streams over in-memory data once.",
 ["src/bytes.rs", "src/reader.rs"],
 [("one poll_read into a fresh buffer per item", "src/bytes.rs: BytesStream::poll_next")],
 [("buffer", "must be empty between polls", "src/bytes.rs: BytesStream")],
 ["Stream::poll_next", "BytesStream::into_reader, reader_mut, reader_pin_mut"])

prop("C23", "No panic, arithmetic overflow, undefined behaviour or data race in any use",
 "No sequence of calls to the public API with any argument values (extreme sizes, offsets, dates, modes, names, buffer sizes including empty buffers), with any schedule and any failures or wrong declarations of the sources, panics, overflows or hangs; errors are returned as errors. Execution is free of memory errors, undefined behaviour and data races, also when many readers are used concurrently from several threads.",
 ["programs", "inputs", "schedules", "fault_sequences"], "all API call sequences and argument values; all thread schedules of concurrent independent readers",
 "Tests use benign arguments in debug builds without sanitizers; argument extremes, mixtures of faults and retries, and memory-level checks are not exercised.",
 ["src/reader.rs", "src/builder.rs", "src/structs.rs", "src/crc_reader.rs", "src/entry_data.rs", "src/bytes.rs", "src/filesystem_entry.rs", "src/actix_web.rs"],
 [("unsafe_code = forbid, checked arithmetic, internal assertions", "Cargo.toml, src/builder.rs: add_entry, src/reader.rs")],
 [("all reader state", "ReadState, ReaderPinned", "src/reader.rs")],
 ["panics caught at the API boundary", "overflow checks, Miri, AddressSanitizer, ThreadSanitizer reports"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
