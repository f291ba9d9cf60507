#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Written channel data reads back exactly, live and after reopening",
 "After any sequence of accepted channel and property writes, in any mix of channels, lengths, layouts and storage types and across any number of writer sessions, reading a channel returns exactly the concatenation of the samples written to it, in order and bit for bit. This holds both in the session that wrote them and after the file is opened again. The reported channel length equals the number of samples written.",
 ["histories","inputs"],"every sequence of write_channels / write_properties / drop writer / reopen operations over a small set of channels, element types, layouts and lengths",
 "Tests write one or two fixed segments per file and almost always read back in the writing session; the state that decides what the next segment header omits (active channel list, last format per channel) has combinations no test reaches, and only one test reopens what it wrote.",
 ["src/file/file_writer.rs","src/index/writing.rs","src/index/building.rs","src/io/writer.rs","src/io/reader.rs","src/file/channel_reader.rs"],
 [("incremental metadata: headers are omitted when they match the live object list","src/index/writing.rs check_write_values"),("segment indexing","src/index/building.rs add_segment")],
 ["TdmsFile::read_channel","TdmsFile::channel_length"],
 state=[("active objects","ordered list of channels that the next raw data block carries","src/index/building.rs"),("latest data format","last type/length written per channel","src/index/mod.rs")])

p("C02","The live view of a written file equals the view after reopening it",
 "At every point of every history of writes, property updates and writer sessions, everything observable through the open file (groups, channels, channel lengths, properties and data) is identical to what a fresh open of the same bytes shows. Opening a file that the library wrote always succeeds. Appending to a reopened file behaves exactly as appending in the original session.",
 ["histories"],"every operation sequence up to the depth bound plus every reachable state of the writer's header-omission protocol, each followed by a fresh open of the bytes on the device",
 "Only one test opens the bytes again after writing, and only for a single segment; divergence between the in-memory index and what the bytes say needs specific multi-step histories.",
 ["src/file/mod.rs","src/file/file_writer.rs","src/index/building.rs","src/index/writing.rs","src/meta_data.rs","src/io/reader.rs"],
 [("the writer feeds the segment it wrote into the same index builder that open uses","src/file/file_writer.rs end_stream"),("append position","src/file/mod.rs writer")],
 ["TdmsFile::new on the written bytes vs the live TdmsFile"])

p("C03","Any valid TDMS file is decoded to exactly the data it encodes",
 "For every well-formed file built from segments in either byte order and either data layout, with full, incremental, repeated or absent metadata, several raw data chunks per segment and any mix of supported channel types, each channel's length and samples and each object's properties are exactly those the NI format defines. Channels of a type the library cannot read do not disturb the others.",
 ["inputs","histories"],"every sequence of segment shapes (new or continued object list, per-object raw index new / same-as-previous / none, layout, byte order, chunk count, channel types) up to the bound, produced by an independent encoder",
 "One LabVIEW-made little-endian file is the only foreign input in the suite; big-endian files, absent metadata sections and most incremental metadata shapes are never read end to end.",
 ["src/meta_data.rs","src/index/building.rs","src/io/reader.rs","src/raw_data/mod.rs","src/raw_data/records.rs","src/raw_data/contigious_multi_channel_read.rs","src/raw_data/interleaved_multi_channel_read.rs","src/io/data_types/mod.rs"],
 [("segment parsing","src/io/reader.rs read_segment"),("active object list","src/index/building.rs"),("chunk count","src/raw_data/mod.rs number_of_chunks")],
 ["TdmsFile::new, read_channel, channel_length, read_property on generated bytes"])

p("C04","Reading from an offset returns exactly the matching slice",
 "Reading a channel from any start sample into a buffer of any length fills the buffer with exactly the samples at that position, stopping at the end of the channel or of the buffer. Elements of the buffer past the last available sample are left untouched, and a start at or beyond the end succeeds and changes nothing.",
 ["inputs"],"every start offset and buffer length over files with every arrangement of blocks, chunks per block and layouts up to the bound",
 "Tests read a handful of offsets in one file whose blocks are all of one size, and never check the untouched tail.",
 ["src/file/channel_reader.rs","src/raw_data/mod.rs","src/raw_data/contigious_multi_channel_read.rs","src/raw_data/interleaved_multi_channel_read.rs"],
 [("read plan with skips","src/file/channel_reader.rs read_plan"),("per-channel skip inside a block","src/raw_data/mod.rs read_with_per_channel_skip")],
 ["TdmsFile::read_channel_from output buffer"])

p("C05","Reading several channels at once equals reading them one by one",
 "A multi-channel read fills every requested buffer with exactly what a single-channel read of that channel from the same start would, whatever the order of the request, the buffer lengths, the start sample, how the channels are spread over blocks, and even if a channel is requested twice.",
 ["inputs","histories"],"every request order (with repetitions), per-channel buffer length and start sample over files with every block arrangement up to the bound",
 "Tests use equal buffer lengths, block order, and channels that share every block; unequal progress between channels is never exercised.",
 ["src/file/channel_reader.rs","src/raw_data/mod.rs","src/raw_data/records.rs","src/raw_data/contigious_multi_channel_read.rs","src/raw_data/interleaved_multi_channel_read.rs"],
 [("per-channel progress","src/file/channel_reader.rs ChannelProgress"),("record plan","src/raw_data/records.rs")],
 ["TdmsFile::read_channels / read_channels_from output buffers"])

p("C06","Reads never reinterpret stored data as another type",
 "Reading a channel as a type that does not support the stored data type fails with an error and leaves the output untouched; reading it as a supporting type gives the stored values. This holds for every pair of stored and requested type, in both layouts and byte orders, for single and multi-channel reads and for channels whose type changes between blocks.",
 ["inputs"],"the full matrix of stored type code x requested Rust type x layout x byte order x neighbour channel types x read call",
 "Tests check one mismatching pair on an internal function; a new or widened type mapping would pass them.",
 ["src/raw_data/records.rs","src/io/data_types/mod.rs","src/io/data_types/native_numerics.rs","src/io/data_types/bool.rs","src/io/data_types/extended.rs","src/io/data_types/timestamp.rs"],
 [("supported type check","src/raw_data/records.rs validate_types_match"),("SUPPORTED_TYPES","src/io/data_types")],
 ["result and buffer of TdmsFile::read_channel::<T>"])

p("C07","Properties: last write wins, per object and name, value and type exact",
 "For every object the properties reported are exactly those last written to it, with identical type and value, live and after reopening; writes to one object or name never affect another, and writing data never changes properties. Asking for an unknown property of a known object gives nothing, and asking about an unknown object is reported as missing.",
 ["histories","inputs"],"every sequence of property writes (several objects, names, all value types, several properties per call, interleaved with data writes and reopen) up to the bound",
 "Tests write one value per type once and read it in the same session; overwriting, type changes, isolation between objects and persistence are not covered.",
 ["src/properties.rs","src/index/mod.rs","src/index/building.rs","src/file/file_writer.rs","src/meta_data.rs","src/io/data_types/strings.rs"],
 [("property merge","src/index/mod.rs ObjectData::update"),("property codec","src/properties.rs")],
 ["TdmsFile::read_property","TdmsFile::read_all_properties"])

p("C08","Group and channel listings are complete, exact and usable",
 "Listing groups yields every group that exists explicitly or through a channel exactly once, and listing a group's channels yields exactly that group's channels and nothing from any other group, for every set of object names including names that are prefixes of each other or contain slashes, quotes or non-ASCII text. Every listed path addresses the object it was listed for.",
 ["inputs","histories"],"every subset of a pool of adversarial group and channel names, written through the API or present in a foreign file, in every order",
 "Tests list two plain names; prefix, separator and quoting collisions between names are never present.",
 ["src/file/mod.rs","src/index/querying.rs","src/paths.rs"],
 [("prefix range query","src/index/querying.rs paths_starting_with"),("path parsing","src/paths.rs parse_path")],
 ["TdmsFile::list_groups","TdmsFile::list_channels_in_group"])

p("C09","Object paths are injective and parse back to the names they were built from",
 "For any group and channel names the built path identifies that object alone (up to the documented replacement of single quotes), reports those group and channel names, and parses back to an equal path of the same kind. Parsing or querying any string never panics: it gives a path that renders to the same string, or an error.",
 ["inputs"],"every name up to the length bound over an alphabet of slash, quotes, letters, space and a multi-byte character, and every raw path string over the same alphabet",
 "Tests parse a few well-formed paths; separators inside names, lone quotes and empty names are not tried.",
 ["src/paths.rs"],[("escaping","src/paths.rs escape_name"),("parsing","src/paths.rs parse_path, parse_name, path_levels")],
 ["PropertyPath, ChannelPath constructors, accessors, TryFrom"])

p("C10","Malformed files never crash, hang or exhaust the library",
 "Opening any byte sequence, and then listing, querying, reading from and appending to whatever opened, always returns in bounded time with a result or an error. It never panics, overflows, aborts or loops.",
 ["inputs"],"every single-byte change, every truncation and every combination of up to two header-field changes (boundary values) applied to a set of base files, followed by every query and read",
 "Tests feed three hand-made bad inputs to internal functions; the fuzz target only opens files and samples.",
 ["src/meta_data.rs","src/index/building.rs","src/raw_data/mod.rs","src/raw_data/contigious_multi_channel_read.rs","src/raw_data/interleaved_multi_channel_read.rs","src/io/data_types/strings.rs","src/paths.rs","src/file/channel_reader.rs"],
 [("checked arithmetic and fallible allocation","src/index/building.rs, src/raw_data/mod.rs, src/io/reader.rs"),],
 ["process outcome of TdmsFile::new and every later call"])

p("C11","A crash never corrupts or silently alters earlier data",
 "For every file the library writes and every byte position at which the file may be cut off by a crash, opening the remainder either fails with an error or shows every complete segment's properties and samples exactly; samples that were lost are reported as an error, never made up. Appending to such a file is either refused or leaves a file in which all earlier complete data and all newly written data read back exactly.",
 ["crash_points","histories"],"every prefix (byte granularity) of the device contents of every bounded write history, followed by every read and by an append-and-reopen",
 "No test truncates a file or appends after one.",
 ["src/file/mod.rs","src/meta_data.rs","src/io/reader.rs","src/index/building.rs"],
 [("end of file detection","src/meta_data.rs Segment::read"),("append position","src/file/mod.rs writer")],
 ["TdmsFile::new and reads on every prefix; writer() on every prefix"])

p("C12","Read and seek failures are reported and leave the file usable",
 "If the underlying stream fails during opening or reading, the call returns an error rather than success with missing or wrong data. After a failed read the same file object returns correct data once the stream works again.",
 ["fault_sequences"],"an error injected at every single stream operation, and every pair of them, of opening and of a fixed set of reads, on every base file",
 "No test uses a failing stream.",
 ["src/file/mod.rs","src/meta_data.rs","src/io/reader.rs","src/file/channel_reader.rs"],
 [("error propagation","src/file/mod.rs build_index; src/raw_data")],
 ["Result and buffer of open/read over a fault-injecting stream"])

p("C13","Short and interrupted stream operations are invisible",
 "A stream that returns fewer bytes than asked, splits writes arbitrarily or reports interruptions produces exactly the same file contents, view and data as one that does not.",
 ["fault_sequences","inputs"],"every maximum transfer size from 1 byte up, and an interruption or short transfer injected at every single stream operation and every pair, for write, open and read scenarios",
 "Tests run on Cursor and File only, which never do this.",
 ["src/io/reader.rs","src/io/writer.rs","src/meta_data.rs","src/io/data_types/strings.rs"],
 [("read_exact/write_all","src/io/data_types")],
 ["bytes on the device and results of reads"])

p("C14","A rejected write changes nothing",
 "A write call that is refused because of its arguments (no channels, a length that does not divide by the channel count, no values, or an unsupported element type) returns an error, writes no bytes and changes nothing observable. Everything written before and after it is stored and read back as if the refused call had not been made.",
 ["histories","inputs"],"every position of every kind of invalid call within every bounded history of valid writes",
 "Tests check two error returns on an empty file and look at neither the bytes nor what follows.",
 ["src/file/file_writer.rs","src/raw_data/write.rs","src/index/building.rs"],
 [("argument validation before writing","src/file/file_writer.rs DataStreamWriter::new")],
 ["device contents and full view before/after"])

p("C15","Device write failures never lead to silently wrong or lost data",
 "If the device fails or accepts only part of a write, sync, or new writer, the failing call (or the next one on that writer or file) reports an error, and data whose write and sync both reported success stays readable exactly through the file object that wrote it. Opening the stream afterwards shows every acknowledged segment exactly, or reports an error when a partial segment was left at its end; nothing is ever acknowledged and then missing, misplaced or altered.",
 ["fault_sequences","histories"],"an error (transient or permanent, with or without partial transfer) at every device write, flush and seek of every bounded history of writes, syncs and new writers",
 "No test uses a failing device; the buffered writer defers failures to later calls.",
 ["src/file/file_writer.rs","src/io/writer.rs","src/file/mod.rs"],
 [("error propagation and index update order","src/file/file_writer.rs"),("sync","src/io/writer.rs sync")],
 ["results of write/sync calls vs data after reopening"])

p("C16","Written files conform to the TDMS format",
 "Every file the library writes is accepted by an independent strict reader of the NI format: segments tile the file exactly, lead-in offsets and flags agree with the content, the declared raw data size equals what the object list requires, and decoding gives exactly what was written. This holds for every history of writes, types and layouts.",
 ["histories","inputs"],"every bounded write history and every element type, length and channel count sweep, decoded by a strict decoder that shares no code with the library",
 "Tests compare a few header fields of single segments; self-consistent but non-conforming output would pass every read-back test.",
 ["src/io/writer.rs","src/meta_data.rs","src/raw_data/write.rs","src/file/file_writer.rs","src/properties.rs"],
 [("lead-in and offsets","src/io/writer.rs write_segment"),("sizes","src/meta_data.rs TdmsMetaData::size, src/raw_data/write.rs size")],
 ["bytes on the device"])

p("C17","Files are append-only and reading never writes",
 "Writing only ever adds bytes after the existing end of the file: no byte of an earlier segment is modified, whichever objects or properties are updated. Opening, listing and reading never write to the stream, and opening an existing file for writing without writing anything leaves it unchanged.",
 ["histories"],"every bounded history with the device recording every write and its position",
 "Tests never look at which bytes are written.",
 ["src/file/mod.rs","src/file/file_writer.rs","src/io/writer.rs"],
 [("append position","src/file/mod.rs writer")],
 ["write log of the stream"])

p("C18","After sync everything written so far is on the device",
 "When sync reports success, all data and properties written before it are present in the underlying stream even if the process dies without dropping the writer; reopening shows all of it. Data is likewise present once the writer has been dropped.",
 ["crash_points","histories"],"every position of sync in every bounded write history, with sizes below, at and above the internal buffer size, followed by a crash that discards everything still buffered",
 "No test calls sync.",
 ["src/io/writer.rs","src/file/file_writer.rs"],
 [("flush","src/io/writer.rs LittleEndianWriter::sync")],
 ["device contents at the return of sync"])

p("C19","Every storage type encodes and decodes exactly in both byte orders",
 "For every storage type and every value, encoding writes exactly the declared number of bytes in the NI layout for that byte order, and decoding returns the identical value and consumes exactly those bytes. A boolean is true for every byte but 0. A truncated encoding is an error.",
 ["inputs"],"every value of 8- and 16-bit types, and for wider types every value with at most two non-trivial bytes in every byte position plus boundary values; every truncation",
 "Tests round-trip one value per type.",
 ["src/io/data_types/native_numerics.rs","src/io/data_types/bool.rs","src/io/data_types/complex.rs","src/io/data_types/extended.rs","src/io/data_types/strings.rs","src/io/data_types/timestamp.rs"],
 [("codec macros","src/io/data_types")],
 ["TdmsStorageType::read_le/read_be/write_le/write_be/size"])

p("C20","Property values convert only to their own type and back unchanged",
 "Converting a value into a property value and back yields the identical value, and converting a property value to any other type is an error that names the actual type. Nothing is silently widened, truncated or reinterpreted. A date becomes the timestamp of that instant and converts back without loss, and any timestamp a file can hold converts to its date or, where there is none, to an error, never a panic.",
 ["inputs"],"the full matrix of property value variants x target types, over boundary values of each type, by value and by reference",
 "Tests convert one value per type to its own type only.",
 ["src/properties.rs"],[("conversion macro","src/properties.rs impl_conversion_for_property_value")],
 ["TryFrom<PropertyValue> / TryFrom<&PropertyValue> / From<T>"])

p("C21","Reads do not depend on what was read before",
 "The result of any query or read depends only on the file contents and the call itself: any sequence of successful or failed reads, listings and property queries leaves every later result unchanged, whatever position the stream was left at.",
 ["histories"],"every sequence of read and query calls (including failing ones) up to the bound on files with several layouts, compared with the same call on a fresh open",
 "Tests issue one or two reads per open file.",
 ["src/file/channel_reader.rs","src/raw_data/mod.rs","src/file/mod.rs"],
 [("absolute seek before each block","src/raw_data to_file_position")],
 ["results of calls on a used vs a fresh TdmsFile"])

p("C22","Reads touch only the data they need",
 "Reading from an offset never reads from data blocks that lie wholly before the first requested sample or that hold no requested channel, stops once every buffer is full, and visits each needed block once. The number of stream operations a read needs does not grow with the amount of data skipped or left unread.",
 ["inputs"],"every request (channels, start, length) over files with every block arrangement up to the bound, with blocks larger than any read-ahead, on a stream that records every access",
 "Tests observe only values, so a read that scans the whole file passes.",
 ["src/file/channel_reader.rs","src/raw_data/contigious_multi_channel_read.rs","src/raw_data/interleaved_multi_channel_read.rs"],
 [("block skipping","src/file/channel_reader.rs read_plan"),("early exit","src/file/channel_reader.rs all_channels_complete")],
 ["access log of the stream"])

p("C23","Positions, sizes and counts are exact beyond 32 bits",
 "Files with segments, data blocks, sample counts or offsets beyond 2^31 and 2^32 are indexed, read, queried and appended to exactly like small ones: lengths are exact and reads at any position return the right samples.",
 ["inputs"],"every arrangement of small data segments around sparse segments that place positions, lengths, counts and start samples just below, at and above 2^31, 2^32 and 2^33, read and appended at each",
 "The largest test file is under one megabyte.",
 ["src/file/mod.rs","src/index/building.rs","src/index/mod.rs","src/raw_data/mod.rs","src/file/channel_reader.rs","src/raw_data/contigious_multi_channel_read.rs","src/raw_data/interleaved_multi_channel_read.rs"],
 [("64-bit addresses","src/meta_data.rs Segment, src/raw_data/mod.rs DataBlock")],
 ["TdmsFile over a sparse stream"])

p("C24","Creating, loading and appending to files on disk follow the path",
 "Creating a file at a path always starts from an empty file whatever was there, loading never changes the file and fails if it is missing, and any sequence of create, load, write and close on real paths shows exactly what was written since the last create. Files at other paths are unaffected.",
 ["histories"],"every sequence of create / load / write / close operations on two paths up to the bound, on a real file system",
 "Tests load one committed file and never create one on disk.",
 ["src/file/mod.rs"],[("open options","src/file/mod.rs TdmsFile::load, TdmsFile::create")],
 ["file system contents and view after each operation"])

p("C25","Opening, querying and appending read no sample data",
 "Opening a file touches only the lead-in and metadata of each segment (with at most a fixed read-ahead behind them); listing, querying properties and lengths performs no stream access at all; getting a writer, writing and syncing read nothing and write each byte once. The number of stream operations and the memory these take, and the memory a read takes beyond the caller's buffers, do not depend on how much sample data the file holds.",
 ["inputs"],"every arrangement of segments up to the bound, each with small, 8 GiB and 8 TiB of sample data, in one or very many chunks, on a stream that records every access and an allocator that records every byte",
 "Tests use files of a few kilobytes, where reading everything goes unnoticed.",
 ["src/file/mod.rs","src/meta_data.rs","src/io/reader.rs","src/io/writer.rs","src/index/building.rs","src/file/file_writer.rs"],
 [("segment skipping","src/file/mod.rs build_index"),("metadata only","src/meta_data.rs Segment::read"),("append at the end","src/file/mod.rs TdmsFile::writer")],
 ["access log of the stream","heap use of the calling thread"])

p("C26","Content the library cannot interpret is refused, never misread",
 "Files with DAQmx channels, unknown or unsupported channel and property types, wrong segment tags, text that is not UTF-8, or contradictory sizes are refused with an error when opened (DAQmx as unsupported, a tag with the bytes found, a property type with its code), or, for channel types the library knows but cannot read, every read of that channel is. No object, property or sample is ever made up from such content, wherever in the file it is.",
 ["inputs"],"every DAQmx index shape, type code, tag byte, invalid UTF-8 sequence and contradiction of the enumerated kinds, in both byte orders, before, behind and between ordinary segments",
 "Tests open well-formed files; there is no DAQmx, unknown type or contradictory file among them.",
 ["src/meta_data.rs","src/io/data_types/mod.rs","src/io/data_types/strings.rs","src/properties.rs","src/raw_data/mod.rs","src/index/building.rs"],
 [("raw data index","src/meta_data.rs RawDataIndex::read"),("type codes","src/meta_data.rs DataType read, src/properties.rs PropertyValue::read"),("block validation","src/raw_data/mod.rs DataBlock::from_segment")],
 ["result of TdmsFile::new and of reads"])

p("C27","Errors name their cause",
 "Every refusal reports the reason that applies with the right details: a missing object by its path, a type mismatch by stored and requested type, a refused write by its length and channel count or its type, an invalid path by its text, a stream failure by the stream's own error, an incomplete file by where its segments and the file end, and a call on a writer that already failed by that failure. Its message says so too.",
 ["inputs","fault_sequences"],"every refused call of the enumerated kinds: missing objects at every place of a request, every pair of types, every channel and value count, every short path text, every stream operation failing with each of four kinds, every cut of a segment",
 "Tests check a few error values; most only assert that something failed.",
 ["src/error.rs","src/index/querying.rs","src/raw_data/records.rs","src/raw_data/write.rs","src/file/file_writer.rs","src/file/mod.rs","src/paths.rs","src/meta_data.rs"],
 [("error values","src/error.rs TdmsError")],
 ["error returned by each public call"])

p("C28","Writes add no more to the file than they need",
 "Every accepted write adds exactly one segment that holds a lead-in, at most one metadata entry for each channel or object of the call, and the data itself. A write with the same channels, order, type and length as the data write before it adds only a lead-in and its data, whatever property writes, syncs, writer sessions or reopening lie between, so a stream of equal writes holds one metadata section. An unchanged index is not spelled out again.",
 ["histories"],"every history of data and property writes, syncs, sessions and reopens up to the bound, the size of the file compared with what the format needs after every call",
 "Tests check one or two hand-built segments, not how the size develops over a history.",
 ["src/file/file_writer.rs","src/index/writing.rs","src/index/building.rs","src/io/writer.rs"],
 [("metadata elision","src/file/file_writer.rs DataStreamWriter::new, src/index/writing.rs check_write_values")],
 ["length of the stream after each call"])

p("C29","Handles on the same file never harm or disturb each other",
 "Any number of open handles on one file or stream may coexist with at most one writer. Each keeps showing exactly the state it was opened on, with correct data, whatever others append, until it writes itself. A handle that does not know the whole file gets no writer and changes nothing by asking; one that does gets one. A file opened while another handle writes shows a state it really had, at least everything synced before. This holds for separate handles and for duplicates that share one position. If the file is cut short under an open handle, what remains is still read right, the rest is an error, and no writer is given.",
 ["histories","schedules"],"every interleaving of opening, closing, looking, asking for a writer, writing and syncing on 2 and 3 handles up to the bound, including looks into half-flushed sessions, on a stream, on handles sharing one position and on real files",
 "Tests use one handle at a time.",
 ["src/file/mod.rs","src/file/channel_reader.rs","src/raw_data/mod.rs","src/io/writer.rs"],
 [("stale writer check","src/file/mod.rs TdmsFile::writer"),("absolute positioning","src/raw_data/mod.rs DataBlock reads")],
 ["everything shown by each handle","bytes of the stream"])

p("C30","Memory is needed for what is asked, not for what is stored",
 "A read needs memory in proportion to the samples asked for plus a little per block and channel, however large the channel, its chunks, their number and the part skipped are, and keeps none of it. A write needs memory in proportion to its values and keeps only a fixed amount per segment and channel, so files much larger than memory can be read, written and appended to.",
 ["inputs"],"every arrangement of channels, blocks and chunk shapes of the enumerated kinds at sizes up to 2^17 (2^20) samples, every kind of request; heap use of the calling thread measured during and after each call",
 "Tests check results on small files, never what a call costs.",
 ["src/file/channel_reader.rs","src/raw_data/mod.rs","src/raw_data/records.rs","src/io/reader.rs","src/io/writer.rs","src/raw_data/write.rs","src/index/building.rs"],
 [("streaming readers","src/raw_data/*_multi_channel_read.rs"),("streaming writer","src/raw_data/write.rs, src/io/writer.rs")],
 ["heap use of the calling thread"])

p("C31","The same calls always give the same bytes and the same answers",
 "The bytes that a series of accepted writes produces are a function of these writes and what the file held before: running it again, and syncing, starting a new writer session, reopening, reading, listing, failed reads, refused calls, a slow stream or work on other files between the writes, change no byte. Groups, channels and properties are listed in the same order each time, by the file object that wrote them and by every fresh one.",
 ["histories"],"every sequence of 3 (4) writes out of 10 with every combination of 9 interludes before them, on new files and behind segments of other writers; listing orders after every such sequence and for up to 40 groups of 12 channels",
 "Tests compare bytes for single writes and listings of two or three names.",
 ["src/file/file_writer.rs","src/index/writing.rs","src/index/building.rs","src/index/mod.rs","src/index/querying.rs","src/file/mod.rs","src/io/writer.rs"],
 [("metadata elision","src/index/writing.rs check_write_values"),("ordered index","src/index/mod.rs ObjectIndex, ObjectData")],
 ["bytes of the stream","order of list_groups, list_channels_in_group, read_all_properties"])
p("C32","The application's own storage types, their errors and panics do no harm",
 "A storage type that an application defines through the public trait is written and read like a built-in one of that format, whatever its size in memory and however many stored types it supports, and its values are neither leaked nor dropped twice. If its encoding or decoding reports an error, the call reports it. If it, a channel name or the stream panics inside a call, that call alone ends. Either way, what was acknowledged before stays and reads exactly, a half-written segment is never taken for data, reads afterwards are right, and later writes are refused or stored and read back exactly.",
 ["inputs","crash_points","histories"],"storage types of the application over all stored types; an error or panic at each (or 15) of the values of each write and 12 of each read, and at each operation of the stream, behind bounded histories, with 4 ways to go on",
 "Tests use built-in types only, whose codecs never fail by themselves, and never unwind through a call.",
 ["src/io/data_types/mod.rs","src/raw_data/write.rs","src/file/file_writer.rs","src/file/channel_reader.rs","src/raw_data/mod.rs","src/raw_data/contigious_multi_channel_read.rs","src/raw_data/interleaved_multi_channel_read.rs","src/io/writer.rs"],
 [("incomplete segment flag","src/file/file_writer.rs segment_incomplete"),("public codec trait","src/io/data_types/mod.rs TdmsStorageType"),("value by value reading","src/raw_data/*_multi_channel_read.rs")],
 ["bytes of the stream","samples","result of the call","instances of the application's type"])
p("C33","Threads that use the library at the same time do not disturb each other",
 "File objects, paths, values and errors can be moved to other threads and shared between them. Threads that each work on a file object of their own get the bytes, answers and errors they would get alone, however their stream operations interleave, also when the stream of one of them fails or panics, and none waits for another. A thread that opens a file while another one appends to it sees a state the file had meanwhile, with everything synced before, or an error if the device ended within a segment. A file object or writer that moves between threads works as if it stayed.",
 ["schedules","fault_sequences","histories"],"schedules of 2 (3) threads doing jobs of reading, writing, listing and refusing on own files, shared file objects or one file, with up to 2 (3) preemptions at stream operations, values of application types and items of listings",
 "Tests run each call on one thread with nothing in between.",
 ["src/lib.rs","src/file/mod.rs","src/file/file_writer.rs","src/file/channel_reader.rs","src/index/mod.rs","src/io/reader.rs","src/io/writer.rs","src/io/data_types/strings.rs"],
 [("no state outside the file object","src/file/mod.rs TdmsFile"),("opening a file that grows","src/file/mod.rs build_index")],
 ["bytes of the stream","samples, listings and properties","result of the call","progress of other threads"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
