# Per-property run configuration: which drivers, which instrumentation, how many cases.
def P(driver, quick, thorough, variant="asan", **kw):
    return dict(driver=driver, variant=variant, quick=quick, thorough=thorough, **kw)
PROPS = {
 "C01": dict(level="exploration", parts=[P("c01", 12000, 150000)],
   rule="Random MDF4 measurements (data groups, channel groups, channels of all supported types/widths/byte orders, validity, interleaved sampling, compressed or not, periodic flush or not); non-trivial: at least 2 saved samples; distinct by layout and sample counts.",
   assumptions=["samples are saved in chronological order, as the API requires"]),
 "C02": dict(level="exploration", parts=[P("c02", 8000, 100000)],
   rule="Random MDF3 measurements (1-3 data groups, 1-40 channel groups, all numeric types/widths/byte orders, fixed text and byte arrays, periodic flush or not); non-trivial: at least 2 saved samples; distinct by layout and sample counts."),
 "C03": dict(level="exploration", parts=[P("c03", 2400, 30000)],
   rule="One random measurement written under all 8 combinations of {plain, compressed} x {periodic, at stop} x {file, stream} (3 combinations for multi-megabyte cases with random, constant or repetitive content); non-trivial: at least 2 saved samples; distinct by layout and sample counts."),
 "C04": dict(level="exploration", parts=[P("c04", 1600, 20000, "tsan", hang_s=120), P("c04b", 400, 6000, hang_s=60)],
   rule="2-6 producer threads saving uniquely numbered samples/CAN messages into own or shared groups while the worker flushes every 1 ms into a stream with injected delays or a file (all writer types, plain/compressed, early or late start), under ThreadSanitizer, checked offline; plus stop requests sent while the worker is delayed on its way into its wait. Non-trivial: more than one sample; distinct by configuration and by the thread order observed in the file."),
 "C05": dict(level="exploration", parts=[P("c05", 8000, 100000)],
   rule="Random pre-trigger times, sample times (many exactly at or 1 ns around the window edge and the start), start and stop times, 1-3 data groups, MDF3/MDF4/converter writers, worker trimming every 1 ms or not at all; non-trivial: samples both before and after the start; distinct by layout, window and sample distribution.",
   assumptions=["samples are saved in time order and the start time is not earlier than the samples saved before it"]),
 "C06": dict(level="exploration", parts=[P("c06", 3000, 40000)],
   rule="Random measurements with 0-3 variable-length string/byte channels per group (payload sizes 0 to 5 MB, all string encodings, signal-data storage plain/compressed) and bus logs with VLSD groups; each payload read in one pass, by stored offset (all, one, random subset in any order) and through raw records; non-trivial: at least 2 samples; distinct by layout and counts."),
 "C07": dict(level="exploration", parts=[P("c07", 6000, 80000)],
   rule="Random CAN/CAN FD data, remote, error and overload frames (all flags, DLC independent of length, payload 0-64) saved through the standard configuration or the configuration adapter with channel/message filters, all storage types, mandatory members or all, plain/compressed, file or stream; every member channel and CanBusObserver (buffered and callback) compared with the saved messages; non-trivial: at least 2 messages; distinct by configuration and counts."),
 "C08": dict(level="exploration", parts=[P("c08", 4000, 60000)],
   rule="Random LIN, Ethernet, MOST and FlexRay events of every kind (all members, edge values) saved through the standard configuration or configuration adapters with filters, 1-3 data groups, all storage types, mandatory members or all, plain/compressed, file or stream; every member channel compared with the saved event; non-trivial: at least 2 events; distinct by configuration and counts."),
 "C09": dict(level="exploration", parts=[P("c09", 4000, 60000)],
   rule="Random groups with 1-3 array channels (1-5 dimensions, up to 2000 elements, all numeric types/widths/byte orders, per-element validity, conversions, axis values) between ordinary channels; elements set one by one in any order or in bulk; read back element-wise, as value lists, engineering lists and text; non-trivial: at least 2 samples; distinct by layout, shape and counts."),
 "C10": dict(level="exploration", parts=[P("c10", 20000, 400000)], rule="engineering values through Convert, channel observer and sample observer, before and after storage, against a separately written reference evaluator of each conversion kind"),
 "C11": dict(level="exploration", parts=[P("c11", 3000, 40000)],
   rule="2-5 successive measurements into one MDF 4 or MDF 3 file, each through a new writer on the existing file or the same writer after finalizing, adding data groups, history, attachments and events (or no data group at all); after every step a fresh reader must return all earlier samples, attachments and every earlier descriptive fact unchanged plus the new ones; non-trivial: at least 2 saved samples; distinct by step sequence."),
 "C15": dict(level="exploration", parts=[P("c15", 6000, 80000)],
   rule="Random header, history, event, attachment, hierarchy, source, group, channel and conversion attributes and comments (typed properties, trees, alternative names, arbitrary UTF-8 with XML special characters up to 70 kB, numbers of any magnitude, references between objects in both directions, additions while the measurement runs); every fact set must be reported by a fresh reader; non-trivial: more than 10 facts; distinct by the set of facts."),
 "C16": dict(level="exploration", parts=[P("c16", 3000, 30000)],
   rule="1-8 attached files (0 bytes to megabytes, sizes around the 16 kB/10 kB/64 B buffer limits, random, constant or repetitive content, UTF-8 names), embedded plain, embedded compressed or external, added in one or two measurements, to a file or a stream; exported in any order, repeatedly, to file and stream; compared byte for byte, with an independent MD5, all attributes, the measurement data, and the number of open files; non-trivial: at least one attachment; distinct by kinds and sizes."),
 "C12": dict(level="exploration", parts=[P("c12", 6000, 80000)],
   rule="Random MDF 4 and MDF 3 measurements (all channel types, variable-length data, arrays, conversions, metadata, events, hierarchies, attachments, appended measurements, file or stream, bus logs of all five buses) parsed by an independent byte-level parser: links, block types, lengths, link counts, alignment, overlap, record layout, record ids, counters, list offsets, compressed sizes, texts and XML, then all decoded values compared with what was saved; non-trivial: at least 2 saved samples."),
 "C13": dict(level="exploration", parts=[P("c13", 20000, 300000)],
   rule="Files synthesised by an independent MDF 4 encoder (versions 4.00-4.20, blocks in any order with gaps and shared text/conversion blocks; sorted and unsorted groups, record id sizes 0-8, records of random bytes; integers of 1-64 bits and half/single/double floats at any byte and bit position in both byte orders, fixed/variable/maximum length texts and bytes, signal data and VLSD groups, arrays, member channels, virtual channels, invalidation bits anywhere; data as one block, deflated, transposed, lists of equal or arbitrary fragments cut anywhere, empty fragments, chained lists, header lists, value blocks); every value, validity and text read is compared with the meaning of the bytes computed separately; non-trivial: a group with samples; distinct by record and group layout."),
 "C14": dict(level="exploration", parts=[P("c14", 16000, 200000)],
   rule="Random sequences of 3-12 operations on one reader over files of the own MDF 4 and MDF 3 writer and of the independent encoder (sorted/unsorted, fragmented, signal data, VLSD groups, arrays): attach any subset of channel observers (one by one, per group, per data group; with or without variable-length data), full and range reads with edge ranges, callback observers decoding every record, aborts at a chosen record, drop/detach, close, clear, reload, signal data by offset; every observer's whole content compared after each step with a separate full read; non-trivial: a group with at least 2 samples; distinct by layout and operation sequence."),
 "C17": dict(level="exploration", parts=[P("c17", 6000, 100000)],
   rule="Random instants (edges of seconds, days, leap days, daylight saving changes, 1970-2099) under random process time zones (fixed offsets incl. half and quarter hours, all-year daylight saving, zones with rules): ISO texts written and parsed (fractions of 0-12 digits, offsets, separators, basic form), local and UTC texts, CANopen forms byte for byte, header and history times set as plain, UTC, local or with offsets in MDF 4 and MDF 3 read under another zone, CANopen channels; compared with calendar arithmetic written separately; every case non-trivial, distinct by zone and instants."),
 "C18": dict(level="exploration", parts=[P("c18", 5000, 100000, hang_s=150)],
   rule="Valid files of the own MDF 4 and MDF 3 writers (all channel types, compression, attachments, events, hierarchies, bus logs) and of the independent encoder, damaged by 1-6 edits aimed at a located block: type, length, link count, links (wild, cyclic, to another block), fields set to edge values, cuts, bit flips, overwritten, inserted, removed and exchanged ranges, and unfinalized markings. Each is opened and fully read from memory and from a file (metadata, conversions, all data by observers, ranges, signal data, attachments) under AddressSanitizer and UBSan with an allocation limit of 200 MB per request, a CPU limit per file and a check that no exception escapes; every case non-trivial, distinct by damaged bytes."),
 "C19": dict(level="exploration", parts=[P("c19", 2000, 30000)],
   rule="Random MDF 4 and MDF 3 measurements and bus logs (plain, compressed, periodic or at stop, appended to an existing file, multi-megabyte) whose every write system call on the target file is recorded; the file image after each recorded write (all of them or an even choice of 60, 300 thorough) is opened and fully read and compared with the finished file: groups, channels, earlier measurements, delivered samples, monotone counts; in addition the driver waits, while measuring, for everything saved to be readable in the file. Non-trivial: at least 2 saved samples; distinct by layout, configuration and number of writes.",
   assumptions=["a crash leaves a prefix of the issued write calls in the file (process death, not loss of power)"]),
 "C20": dict(level="exploration", parts=[P("c20", 4000, 50000)],
   rule="Files of the own writer (all channel types, metadata, attachments, bus logs), with every kind of conversion, and of the independent encoder, sorted (plain/compressed, with or without empty groups, over an existing file or not) or validated (to a new file, into the source, over an existing file); all raw values, engineering texts, descriptive facts and attachments of source and destination compared; also missing, cut and garbage sources, existing and identical destinations. Non-trivial: at least 2 samples; distinct by source layout and task.",
   assumptions=["MDF 4 sources; events, channel hierarchies and references from channels to other objects are documented as not copied"]),
 "C21": dict(level="exploration", parts=[P("c21", 30000, 400000)],
   rule="Files synthesised by an independent MDF 3 encoder (versions 3.00-3.30 with their shorter or longer blocks, both default byte orders, blocks in any order with gaps, record id modes 0-2, sorted and unsorted groups, integers of 1-64 bits and floats at any byte and bit position in both explicit byte orders and the default one, texts, bytes, CANopen dates and times, records beyond 8 kB with additional byte offsets, linear, rational, tabular and text conversions, long and display names, source, trigger and sample reduction blocks); every value, text and sample range read is compared with the meaning of the bytes computed separately; non-trivial: a group with samples; distinct by record and group layout."),
 "C22": dict(level="exploration", parts=[P("c22", 4000, 60000)],
   rule="The command line converter run in-process on 1-4 files (own MDF 4 and MDF 3 writer with quotes, separators and line breaks in names, units and texts, groups with equal or no names, conversions, arrays, bus logs, files of the independent encoders; plain, quoted, relative and directory arguments, missing and other files among them, with and without output directory and --force, temporary directory on the same or another file system, CSV files already there); every CSV file is parsed strictly and compared field by field with a separate reading of the MDF file, and all other files compared before and after. Non-trivial: at least one row; distinct by layout and form of the call."),
 "C23": dict(level="exploration", parts=[P("c23", 4000, 60000)],
   rule="Measurements and CAN/LIN logs configured, written and read only through the functions exported by mdflibrary/src/MdfExport.cpp: after each setter the C++ getter and the exported getter are compared with the value set, every exported getter and list function is compared with the C++ method on the same object before writing and after reading (texts and lists in buffers of exactly the reported size under AddressSanitizer, values also in larger and too small buffers), and all samples read through exported observers and through the C++ reader are compared with the samples given. Non-trivial: at least one sample; distinct by layout and values."),
 "C24": dict(level="exploration", parts=[P("c24", 12000, 150000)],
   rule="Random MDF 4 and MDF 3 measurements (fixed and variable-length channels of every data type, arrays, invalidation flags, numbers of decimals, four time zones) whose every value is set through a randomly chosen C++ type that holds it, as text, as bytes or as a list of all elements; each sample is read back as 12 arithmetic types, text and bytes in the record callback and from observers, one by one and in bulk, raw and engineering, and compared with the drawn value converted separately. Non-trivial: at least one value; distinct by layout and the forms used."),
 "C25": dict(level="exploration", parts=[P("c25", 8000, 100000)],
   rule="Random comment objects (header comments with unit specifications, admin data, physical dimensions, unit groups and units, constants; conversion comments with computation methods, scales, constraints and coefficients; channel comments with formulas, variables, array indexes, names, linker data; unit objects with references; user-defined extensions; texts with every XML-relevant character, doubles over the whole range) written to XML and parsed, written again, and stored in and read from a file; every attribute compared with the one set, also through the plain unit and description getters. Non-trivial: more than 30 attributes; distinct by the set of attributes."),
 "C26": dict(level="exploration", parts=[P("c26", 8000, 100000)],
   rule="Files of the independent MDF 4 encoder with 1-3 sample reductions per group (plain, deflated and transposed reduction data in one block, data lists and header lists; version 4.20 reduction values with and without separate invalidation bytes), each mean, minimum and maximum record being the record of a known sample; reductions read one at a time or with the group's data, with and without observers, and every number read as unsigned, signed, float and text, raw and engineering. Non-trivial: at least one reduction; distinct by layout and reduction sizes."),
}
