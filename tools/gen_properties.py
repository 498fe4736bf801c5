#!/usr/bin/env python3
"""Regenerates properties.jsonl from the table below (kept in python for readability)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
S = "mdflib/src/"
prop("C01", "MDF4 files give back every saved sample unchanged",
     "Whatever channels, groups and samples an application writes to an MDF 4 file, reading the finalized file back yields for every channel group exactly the samples that were saved, in the order they were saved, with identical channel values for every supported data type, byte order and bit width, and identical valid/invalid state. The master time of each sample equals its absolute time minus the measurement start, in seconds. Group sample counts, names, data types and units are preserved as well.",
     ["inputs", "configurations"], "all channel sets, data types, bit widths, byte orders, invalidation settings, numbers of data groups and channel groups, sample values and sample times",
     "The stable tests write a handful of fixed layouts; the MDF 4 write/read tests are not among the stable ones and the space of layouts times values is unbounded.",
     [S+"mdf4writer.cpp", S+"writer4samplequeue.cpp", S+"cn4block.cpp", S+"cg4block.cpp", S+"dg4block.cpp", S+"dt4block.cpp", "include/mdf/ichannel.h", S+"ichannel.cpp", "include/mdf/mdfreader.h"],
     [("record layout", S+"cn4block.cpp:PrepareForWriting"), ("value encoding", "include/mdf/ichannel.h:SetChannelValue"), ("value decoding", "include/mdf/ichannel.h:GetChannelValue"), ("record dispatch", S+"dg4block.cpp:ReadData"), ("master time", S+"samplequeue.cpp")],
     ["values returned by channel observers after a write/finalize/read cycle"])
prop("C02", "MDF3 files give back every saved sample unchanged",
     "Whatever numeric, text and byte-array channels an application writes to an MDF 3 file, reading the finalized file back yields for every channel group exactly the samples that were saved, in order, with identical values for integers and floats of every width and both byte orders and identical fixed-length text. The master time of each sample equals its absolute time minus the measurement start, in seconds, and sample counts, channel names and units are preserved. This holds with any number of data groups and of channel groups per data group.",
     ["inputs", "configurations"], "all MDF 3 channel sets, data and channel group structures, values and times",
     "Stable tests check single blocks; no stable test writes and reads complete MDF 3 measurements over random layouts.",
     [S+"mdf3writer.cpp", S+"samplequeue.cpp", S+"cn3block.cpp", S+"cg3block.cpp", S+"dg3block.cpp", S+"dt3block.cpp", S+"hd3block.cpp"],
     [("record layout", S+"cn3block.cpp:PrepareForWriting"), ("sample save", S+"samplequeue.cpp"), ("record reading", S+"dg3block.cpp:ReadData")],
     ["values returned by channel observers after a write/finalize/read cycle"])
prop("C03", "Compression, save period and destination never change the stored data",
     "Turning compression on or off, saving periodically or only at stop, and writing to a file or to a seekable in-memory stream never changes what a reader gets back: every combination yields the same groups, the same samples in the same order, the same values including variable-length payloads, and the same master times. This holds for any amount of data, from an empty measurement to many megabytes, and for compressible as well as incompressible content.",
     ["inputs", "configurations"], "all data volumes and contents times all combinations of the writer options",
     "Stable tests compress one small, compressible buffer; block-size boundaries, incompressible content and multi-block lists are never reached.",
     [S+"writer4samplequeue.cpp", S+"dz4block.cpp", S+"dl4block.cpp", S+"hl4block.cpp", S+"zlibutil.cpp", S+"readcache.cpp", S+"mdf4writer.cpp"],
     [("block splitting", S+"writer4samplequeue.cpp"), ("deflate/inflate", S+"zlibutil.cpp"), ("block list reading", S+"readcache.cpp")],
     ["sample sequences of the same scenario written under different options"])
prop("C04", "Concurrent producers: every saved sample stored exactly once, without races",
     "When several threads save samples, also while the writer flushes in the background and while the measurement is stopped afterwards, the finalized file holds each saved sample exactly once, no sample is torn, duplicated, lost or invented, and the samples of one thread to one group appear in the order that thread saved them. The library itself performs no unsynchronised conflicting memory access in such use, and stopping terminates promptly.",
     ["schedules", "histories"], "all interleavings of producer threads, background flush and stop, for every writer type",
     "Tests save from one thread; lost wake-ups, unlocked queue access and torn flushes need particular interleavings.",
     [S+"writecache.cpp", S+"samplequeue.cpp", S+"writer4samplequeue.cpp", S+"convertersamplequeue.cpp", S+"mdfwriter.cpp"],
     [("queue mutex", S+"writecache.cpp"), ("background worker", S+"writecache.cpp"), ("flush hand-over", S+"writer4samplequeue.cpp")],
     ["client calls with unique ids; samples read back; ThreadSanitizer reports"])
prop("C05", "Pre-trigger window keeps exactly the samples it should",
     "Samples saved before the measurement start are kept if and only if they lie within the configured pre-trigger time before the start, apart from at most one older sample kept as the value valid at the window's beginning; with no pre-trigger time nothing older than that is stored. Every sample saved after the start is stored whatever its value or the stop time, and kept samples stay in order with negative master time for those taken before the start. The conversion writer never drops any sample.",
     ["inputs", "histories"], "all pre-trigger times, start times and sample time sequences, single and multiple groups",
     "One fixed pre-trigger run is tested at most; the boundary between dropped and kept samples depends on the history.",
     [S+"writecache.cpp", S+"samplequeue.cpp", S+"mdfwriter.cpp", S+"convertersamplequeue.cpp"],
     [("queue trimming", S+"samplequeue.cpp:TrimQueue"), ("start handling", S+"mdfwriter.cpp:StartMeasurement")],
     ["set of sample ids read back versus the reference window"])
prop("C06", "Variable-length data is returned byte for byte",
     "Strings and byte arrays of any length, including empty and very long ones, stored in variable-length channels come back byte for byte attached to the sample they were saved with. This holds for every storage layout, compressed or not, with any number of variable-length channels and groups, and identical payloads read in one pass, by stored offset, or as raw sample records.",
     ["inputs", "configurations"], "all payload length sequences and contents, storage layouts and compression settings",
     "Stable tests do not write variable-length channels at scale; index arithmetic over block boundaries is input dependent.",
     [S+"writer4samplequeue.cpp", S+"sd4block.cpp", S+"cn4block.cpp", S+"vlsddata.cpp", S+"cg4block.cpp", S+"mdfreader.cpp"],
     [("offset patching", S+"writer4samplequeue.cpp"), ("signal data lookup", S+"cn4block.cpp"), ("offset read", S+"mdfreader.cpp:ReadVlsdData")],
     ["payloads returned by observers and raw readers"])
prop("C07", "CAN bus logs reproduce every saved message",
     "Every CAN data, remote, error and overload frame saved by the bus logger is found again in the log, in order within its message kind, with the same time, bus channel, identifier, extended flag, DLC, data length, data bytes and flag bits, for every storage type, with all members or mandatory members only, compressed or not. Both the per-signal channels and the message-level observer report the same message contents.",
     ["inputs", "configurations"], "all CAN / CAN FD message contents and sequences, storage types, member selections and compression settings",
     "The bus logger tests are not among the stable tests and sample a few messages with constant contents.",
     [S+"canmessage.cpp", S+"canconfigadapter.cpp", S+"canbusobserver.cpp", S+"mdfbuslogger.cpp", S+"iconfigadapter.cpp"],
     [("record encoding", S+"canmessage.cpp:ToRaw"), ("channel layout", S+"canconfigadapter.cpp"), ("message decoding", S+"canbusobserver.cpp")],
     ["messages saved versus channel values and observer messages"])
prop("C08", "LIN, Ethernet, MOST and FlexRay logs reproduce every saved message",
     "Every LIN, Ethernet, MOST and FlexRay message saved by the bus logger is found again in the log, in order within its message kind, and each logged member channel of that kind reports the value that was set on the message, including payload bytes and error members. This holds for all message kinds of these buses, for every storage type, and with all members or mandatory members only.",
     ["inputs", "configurations"], "all message contents, kinds, storage types, member selections",
     "No stable test writes these logs; the record encoder and the channel layout are two separately maintained tables that must agree on every bit.",
     [S+"linmessage.cpp", S+"linconfigadapter.cpp", S+"ethmessage.cpp", S+"ethconfigadapter.cpp", S+"mostmessage.cpp", S+"mostconfigadapter.cpp", S+"flexraymessage.cpp", S+"flexrayconfigadapter.cpp"],
     [("record encoding", S+"*message.cpp:ToRaw"), ("channel layout", S+"*configadapter.cpp")],
     ["message members set versus member channels read"])
prop("C09", "Channel arrays keep every element in place",
     "For array channels of any number of dimensions and sizes, each array element saved in a sample is read back at the same index with the same value, without disturbing neighbouring elements or channels. The array's dimensions and size are preserved, and text rendering of an array lists all its elements in order.",
     ["inputs", "configurations"], "all array shapes, element types, byte orders and values",
     "The channel array tests are not stable ones and use one shape and type.",
     [S+"ca4block.cpp", S+"ichannelarray.cpp", "include/mdf/ichannel.h", S+"channelobserver.h"],
     [("element addressing", "include/mdf/ichannel.h"), ("array size", S+"ca4block.cpp:DimensionAsString / nof elements")],
     ["array element values read back"])
prop("C10", "Conversions yield the documented engineering values",
     "For every supported conversion kind (none, linear, rational, polynomial, exponential, logarithmic, value and range tables, interpolation, value-to-text, range-to-text, text-to-value, text translation), the engineering value obtained from a stored raw value equals the value of the documented formula or table lookup, with the documented default outside the table. This holds for every raw value and parameter set, before and after the conversion has been stored in and read from an MDF 4 file, and for the numeric kinds an MDF 3 file supports.",
     ["inputs"], "all conversion kinds, parameters and raw values",
     "Tests evaluate a few points per kind; boundaries, duplicates, extremes and the persisted form are not covered.",
     [S+"ichannelconversion.cpp", "include/mdf/ichannelconversion.h", S+"cc4block.cpp", S+"cc3block.cpp"],
     [("formula evaluation", S+"ichannelconversion.cpp"), ("parameter persistence", S+"cc4block.cpp, "+S+"cc3block.cpp")],
     ["engineering values versus an independent reference"])
prop("C11", "Adding a measurement to a file preserves everything already in it",
     "Opening an existing finalized file for writing and adding data groups, history, events or attachments leaves everything already stored readable and unchanged: all earlier samples, groups, metadata, events and attachments are returned exactly as before, followed by the newly added content. This holds for any number of successive additions, for MDF 4 and MDF 3.",
     ["histories", "inputs"], "all sequences of measurements appended to one file",
     "Stable tests append at most once to trivial files; link patching depends on the history of the file.",
     [S+"mdfwriter.cpp", S+"mdf4writer.cpp", S+"mdf3writer.cpp", S+"hd4block.cpp", S+"hd3block.cpp", S+"dg4block.cpp", S+"mdfblock.cpp"],
     [("append open", S+"mdfwriter.cpp:Init"), ("link update", S+"mdfblock.cpp:UpdateLink")],
     ["full content dump after each addition"])
prop("C12", "Written files are structurally valid MDF",
     "Every file the library finalizes is well-formed according to the MDF layout, judged by a parser that does not share code with the library: identification and version are right and the file is marked finalized, every link points to a block of the expected type inside the file, blocks do not overlap and have correct lengths and link counts, MDF 4 blocks are 8-byte aligned, and record sizes, record ids, sample counts, data lengths and compressed sizes agree with the bytes present. Decoding the records with that parser gives the same sample values the application saved.",
     ["inputs", "configurations"], "all scenarios the writers accept",
     "Tests read files back with the same library, so symmetric errors cancel out and other tools cannot read the file.",
     [S+"mdfblock.cpp", S+"idblock.cpp", S+"dg4block.cpp", S+"cg4block.cpp", S+"cn4block.cpp", S+"dz4block.cpp", S+"dl4block.cpp", S+"hl4block.cpp", S+"hd3block.cpp", S+"dg3block.cpp", S+"cg3block.cpp", S+"cn3block.cpp"],
     [("block headers and sizes", S+"mdfblock.cpp"), ("finalized marking", S+"idblock.cpp")],
     ["bytes of the finalized file, parsed independently"])
prop("C13", "Reading is independent of how a conforming file is laid out",
     "For a conforming MDF 4 file produced by any tool, reading returns the values that the format defines for its bytes: integers and floats at any byte and bit offset, of any bit width and byte order, sorted or unsorted data with any record id size, invalidation bits at any position, data in one block or in any list of plain, compressed or transposed-compressed fragments, and signal data in any such form. Splitting, compressing or reordering the storage of the same records never changes what is read.",
     ["inputs", "configurations"], "all record layouts and data block layouts permitted by the format",
     "Tests only read files the library itself wrote; other layouts exist only in files from other tools.",
     [S+"dg4block.cpp", S+"dl4block.cpp", S+"dz4block.cpp", S+"hl4block.cpp", S+"ld4block.cpp", S+"readcache.cpp", S+"ichannel.cpp", S+"zlibutil.cpp", S+"dbchelper.cpp", "include/mdf/ichannel.h"],
     [("fragment iteration", S+"readcache.cpp"), ("bit extraction", S+"ichannel.cpp"), ("transposition", S+"zlibutil.cpp:InvTranspose")],
     ["values read from files synthesised by an independent encoder"])
prop("C14", "Partial, repeated and selective reads agree with the full read",
     "Reading any range of samples (numbered from one) of a group returns exactly the corresponding slice of what reading the whole group returns. Reading any subset of channels, reading in any order, repeating a read, or reading through different observer kinds gives the same values, validity and sample numbering, and a read aborted by an observer delivers exactly the samples up to the abort.",
     ["inputs", "histories"], "all ranges, channel subsets, observer kinds and sequences of reads on one reader",
     "Tests read whole groups once.",
     [S+"mdfreader.cpp", S+"dgrange.cpp", S+"cgrange.cpp", S+"dg4block.cpp", S+"dg3block.cpp", S+"samplerecordobserver.cpp", S+"isampleobserver.cpp", S+"channelobserver.h"],
     [("range selection", S+"dgrange.cpp"), ("observer dispatch", S+"idatagroup.cpp")],
     ["values per range/subset compared with the full read"])
prop("C15", "Metadata survives storage",
     "Descriptive data attached to a file and its groups and channels is read back as it was set: header author, department, project, subject, description and measurement id, group and channel names, descriptions, units and flags, and, in an MDF 4 file, ranges and limits, source information, file history, events with their scope, channel hierarchies and metadata comments with typed properties. Text may hold any valid UTF-8 including characters that are special in XML, and may be of any length; only white space at either end of a text may be lost.",
     ["inputs"], "all valid texts and metadata values and structures",
     "The metadata tests are not stable ones and use short ASCII constants.",
     [S+"md4block.cpp", S+"tx4block.cpp", S+"imetadata.cpp", S+"hd4block.cpp", S+"fh4block.cpp", S+"ev4block.cpp", S+"ch4block.cpp", S+"si4block.cpp", S+"writexml.cpp", S+"expatxml.cpp", S+"mdcomment.cpp", S+"xmlnode.cpp"],
     [("XML escaping", S+"writexml.cpp"), ("XML parsing", S+"expatxml.cpp"), ("text blocks", S+"tx4block.cpp")],
     ["property values read back"])
prop("C16", "Attachments come back bit-exact with a correct checksum",
     "A file attached to a measurement, embedded plain or compressed, is exported again byte for byte whatever its size and content. The stored file name, type, comment and MD5 checksum are preserved, the checksum is the true MD5 of the attached content, and several attachments do not interfere with each other or with the measurement data.",
     ["inputs"], "all attachment contents, sizes, embedding and compression options",
     "Tests attach one small compressible file; incompressible or large content exercises other paths.",
     [S+"at4block.cpp", S+"zlibutil.cpp", S+"cryptoutil.cpp", S+"hd4block.cpp"],
     [("embedding", S+"at4block.cpp:Write"), ("export", S+"at4block.cpp:ReadData"), ("MD5", S+"cryptoutil.cpp")],
     ["exported bytes and checksum"])
prop("C17", "Points in time are preserved across storage and text forms",
     "An absolute time in nanoseconds, set as UTC, as local time or with explicit time zone and daylight offsets, is read back from the header and history records as the same instant with the same offsets: for MDF 4 to the nanosecond, for MDF 3 as local time with its zone offset in whole hours, whatever the time zone of the reading process. Converting a time to its ISO text and back, parsing ISO text with any fraction length and zone offset, and to the 7- and 6-byte CANopen channel forms and back, yields the same instant to the precision of that form (CANopen forms: for every time from 1984 to 2083).",
     ["inputs"], "all instants, time zone and daylight offsets, fraction lengths and process time zones",
     "The timestamp tests are not stable and use the present time and the build machine's zone.",
     [S+"timestamp.cpp", S+"mdf4timestamp.cpp", S+"mdf3timestamp.cpp", S+"hd4block.cpp", S+"hd3block.cpp", S+"mdfhelper.cpp", "include/mdf/itimestamp.h", S+"ichannel.cpp"],
     [("ISO conversion", S+"timestamp.cpp"), ("header time", S+"mdf4timestamp.cpp")],
     ["instants read back"])
prop("C18", "Arbitrary input never corrupts memory, crashes or hangs the reader",
     "Opening and fully reading any byte sequence as a measurement file - truncated, bit-flipped, with wild or cyclic links, absurd lengths or corrupt compressed data - ends in bounded time and memory with success or a reported failure. It never reads or writes outside allocated memory, never executes undefined behaviour and never lets an exception escape or aborts the process.",
     ["inputs", "fault_sequences"], "all byte sequences given to the reader",
     "Tests use well-formed files; the malformed input space is unbounded.",
     [S+"mdfblock.cpp", S+"mdfreader.cpp", S+"dg4block.cpp", S+"cn4block.cpp", S+"dz4block.cpp", S+"zlibutil.cpp", S+"readcache.cpp", S+"mdf4file.cpp", S+"mdf3file.cpp", S+"expatxml.cpp", S+"isampleobserver.cpp"],
     [("block header validation", S+"mdfblock.cpp:ReadHeader4"), ("bounds checks", "include/mdf/ichannel.h")],
     ["AddressSanitizer/UBSan reports, exit status, step and memory budget of the reader process"])
prop("C19", "An interrupted measurement keeps what was already on disk",
     "If the recording process dies at any moment after the measurement was initialised, the file can still be opened: all groups and channels are present, every valid sample read from it is one that was saved, unaltered and in order, samples once readable stay readable, and measurements already in the file when it was opened for appending stay complete at every moment. With periodic uncompressed saving to one data group, everything saved reaches the file while the measurement runs, without waiting for the stop. Values of variable-length channels whose data is kept in memory until the measurement is finalized are not claimed.",
     ["crash_points", "fault_sequences"], "all prefixes of the sequence of file writes the writer issues",
     "No test interrupts the writer.",
     [S+"mdf4writer.cpp", S+"mdf3writer.cpp", S+"mdf4file.cpp", S+"dg4block.cpp", S+"samplequeue.cpp", S+"writer4samplequeue.cpp", S+"mdfwriter.cpp"],
     [("block list linking", S+"mdfblock.h:WriteLink4List"), ("data link and counter update after each flush", S+"writer4samplequeue.cpp"), ("periodic save", S+"writecache.cpp")],
     ["file images at every recorded write system call, read back"])
prop("C20", "Sorting and validating a file preserve its content",
     "Sorting an MDF 4 file into a new file preserves every channel group with its channels, units, conversions, descriptive data and all samples: raw and engineering values, validity and times are the same, each group now in a data group of its own; header data, history and attachments are kept. Validating reports exactly whether all values of the file are valid, and the validated file has the same content plus a history entry. The source file is left untouched (unless validating into it), an existing destination is only replaced when allowed, no temporary file remains, and when a task can not do its work it reports failure and leaves no destination.",
     ["inputs", "configurations"], "all source files the library can read",
     "The task tests cover one source file.",
     ["include/mdf/mdftask.h", S+"mdftask.cpp", S+"sortingtask.cpp", S+"sortingconfigadapter.cpp", S+"copysampleobserver.cpp", S+"mdfconverter.cpp", S+"convertersamplequeue.cpp", S+"validatingtask.cpp"],
     [("sample copy", S+"copysampleobserver.cpp"), ("configuration copy", S+"sortingconfigadapter.cpp")],
     ["content dump of source and destination"])
prop("C21", "MDF 3 files of other tools are read correctly",
     "A conforming MDF 3 file (version 3.00 to 3.30) is read with exactly the values, texts and structure its bytes define, whatever tool wrote it: either default byte order, explicit byte orders per signal, values at any byte and bit position, records of any size, record ids before or around the records, sorted or unsorted groups, blocks in any order, shorter blocks of older versions, optional blocks present or not, and text, table, rational and linear conversions. Reading a range of samples gives the same values.",
     ["inputs"], "all conforming MDF 3 files",
     "The tests read a few files written by the library itself.",
     [S+"mdf3file.cpp", S+"hd3block.cpp", S+"dg3block.cpp", S+"cg3block.cpp", S+"cn3block.cpp", S+"cc3block.cpp", S+"dt3block.cpp", S+"tx3block.cpp", S+"mdfblock.cpp", S+"idblock.cpp"],
     [("record parsing", S+"dg3block.cpp:ParseDataRecords"), ("signal types and offsets", S+"cn3block.cpp:DataType"), ("byte order", S+"mdfblock.h:ReadNumber")],
     ["values, texts and ranges of synthesised files"])
prop("C22", "mdf2csv exports every sample of a file and nothing else",
     "For every readable MDF file named on the command line of mdf2csv (or found below a directory named there), one CSV file per channel group with samples is written, beside the file or in the given output directory: variable-length data groups excepted, and never two groups in one file. Its head line has the name and unit of each channel, master channels first, the others in file order (the composed CAN frame channels of bus logs excepted), then one row per sample with the engineering value of each channel as text, empty where invalid; fields with quotes, separators or white space are quoted with their quotes doubled, so that a CSV reader gets the exact texts back. Files that are not MDF files or do not exist do not hinder the others. The input and all other files are left alone, an existing CSV file is only replaced with --force, and no temporary file is left behind, whatever file system the temporary directory is on.",
     ["inputs", "environment"], "all readable files and command lines",
     "The existing tests do not run the converter.",
     ["mdf2csv/src/createfilelist.cpp", "mdf2csv/src/csvwriter.cpp", "mdf2csv/src/programargument.cpp", "mdf2csv/src/main.cpp"],
     [("file names and group choice", "mdf2csv/src/createfilelist.cpp:ConvertMdfFile"), ("rows and fields", "mdf2csv/src/csvwriter.cpp:Convert")],
     ["CSV files and directory content after each run"])
prop("C23", "The exported C functions do what the classes do",
     "Each function exported by the shared library (reader, writer, file, header, groups, channels, arrays, conversions, observers, sources, attachments, history, events, properties and bus messages) has the effect and result of the C++ method it stands for: setters set exactly that attribute, getters return its value, text getters report the length and fill a buffer of length + 1 with the terminated text and nothing more, list getters return all objects in order, value getters never read or write beyond the value or the given buffer. A measurement or bus log written and read only through these functions has the same content as with the C++ classes.",
     ["inputs", "API sequences"], "all objects and values",
     "The existing tests do not touch the exported functions.",
     ["mdflibrary/src/MdfExport.cpp", "include/mdflibrary/MdfExport.h"],
     [("exported functions", "mdflibrary/src/MdfExport.cpp")],
     ["results of exported functions against the C++ methods on the same objects"])
prop("C24", "A value keeps its meaning when set or read as another type or as text",
     "A channel value may be set through any C++ arithmetic type that can hold it, as decimal text, and for text and byte channels as the equal number, text or bytes, element by element or all elements at once: the sample is the same as if set with the channel's own type. Each sample may be read as any arithmetic type (the value converted by the rules of C++), as text (decimal digits of integers, floats within the decimals set or 6 digits, texts unchanged, bytes as upper-case hexadecimal digits, CANopen dates and times as local ISO text) or as bytes, in the record callback and from channel observers, one by one or in bulk, with or without engineering conversion, and all of these agree on value and validity.",
     ["inputs", "API sequences"], "all values, channel types and C++ types",
     "The tests set and read a few values, each with the channel's own type.",
     ["include/mdf/ichannel.h", S+"ichannel.cpp", "include/mdf/ichannelobserver.h", S+"ichannelobserver.cpp", S+"channelobserver.cpp", S+"channelobserver.h", "include/mdf/isampleobserver.h", S+"mdfhelper.cpp"],
     [("setting", S+"ichannel.cpp:SetChannelValue"), ("record as text", S+"ichannel.cpp:GetChannelValue"), ("observer as text", S+"ichannelobserver.cpp:GetChannelValue"), ("number texts", S+"mdfhelper.cpp:FormatDouble")],
     ["values delivered as every type, one by one and in bulk"])
prop("C25", "Structured comments and units keep all their parts",
     "The comment objects of header, channels and conversions and the unit objects of channels and conversions keep every part a user sets: texts with their language and history attributes, names, properties and trees of them, formulas with variables and custom syntaxes, numbers, user-defined extensions, unit specifications (units, unit groups, physical dimensions), computation methods with their scales and constraints. Writing such an object as XML and reading it again gives the same object, and so does storing it in a file and reading the file; the plain unit, description and author getters agree with the object.",
     ["inputs"], "all comment and unit objects that can be set through the API",
     "The tests store a few values of each class, and none of them the names of units or the indexes of variables.",
     [S+"mdcomment.cpp", S+"hdcomment.cpp", S+"cncomment.cpp", S+"cccomment.cpp", S+"cnunit.cpp", S+"ccunit.cpp", S+"mdformula.cpp", S+"mdvariable.cpp", S+"mdstring.cpp", S+"mdproperty.cpp", S+"hounit.cpp", S+"hocompumethod.cpp", S+"hocompuscale.cpp", S+"hophysicaldimension.cpp", S+"hounitspecification.cpp", S+"ixmlnode.cpp", S+"expatxml.cpp"],
     [("XML of comments", S+"mdcomment.cpp:FromXml"), ("unit specification", S+"hounitspecification.cpp:FromXml"), ("computation method", S+"hocompumethod.cpp:FromXml")],
     ["all parts of the object before and after"])
prop("C26", "Sample reductions of MDF 4 files are read as stored",
     "For every conforming MDF 4 file, each sample reduction of a channel group reports its interval length, synchronisation type and number of intervals, and for every numeric channel (arrays included) and interval the mean, minimum and maximum with exactly the value and validity its bytes define, as unsigned, signed or floating-point number, as text, and as engineering value through the channel's conversion. This holds whether the reduction data is one block, compressed, transposed, split over lists, or stored as separate values and invalidation bytes, and whether it is read alone or together with the group's samples; after its data is released no value is reported as valid.",
     ["inputs"], "all conforming layouts of reduction data",
     "No test reads a sample reduction.",
     [S+"sr4block.cpp", S+"sr4block.h", S+"isamplereduction.cpp", "include/mdf/isamplereduction.h", S+"datalistblock.cpp", S+"mdfreader.cpp"],
     [("reduction block", S+"sr4block.cpp:ReadData"), ("one value", S+"sr4block.h:GetChannelValueT"), ("as text", S+"isamplereduction.cpp:GetChannelValue"), ("read alone", S+"mdfreader.cpp:ReadSrData")],
     ["mean, minimum and maximum of every channel and interval"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
