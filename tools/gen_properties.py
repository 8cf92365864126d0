#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
      "quantifier": {"over": over, "text": " ".join(text.split())},
      "why_tests_cant": " ".join(why.split()),
      "anchors": {"files": files,
        "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": hook}})

W, R, G = "src/vblf/writer.py", "src/vblf/reader.py", "src/vblf/general.py"
CAN, LIN, ETH, FR, TP, K = ("src/vblf/can.py", "src/vblf/lin.py", "src/vblf/ethernet.py",
    "src/vblf/flexray.py", "src/vblf/tp_diag.py", "src/vblf/constants.py")
OBJ = [CAN, G, LIN, ETH, FR, TP]

p("C01", "Writing then reading a log returns the same objects in the same order",
  """For every sequence of well-formed objects written to one log file, every positive buffer size and every
  compression level 0-9, reading the closed file returns exactly those objects - none missing, none
  added, none altered, in the order they were written - and then reports the end of the log.""",
  ["histories", "configurations"],
  """All histories over an alphabet of objects whose sizes cover every residue mod 8 and straddle the
  buffer boundary at every offset; all buffer sizes from 1 byte up; all ten compression levels.""",
  """Tests write one fixed sequence with the default 128 KiB buffer; whether an object survives depends
  on where container boundaries happen to fall, which is a function of the whole history.""",
  [W, R], [("buffer chunking", W + ":_flush_container"), ("container reassembly", R + ":_generate_objects")],
  [("_buffer", "serialised objects not yet in a container", W), ("_incomplete_data", "tail of the previous container", R)],
  ["objects returned by BlfReader"])

p("C02", "Container boundaries are invisible to the reader",
  """However the serialised object stream of a log is cut into containers - at any byte, into any number
  of pieces including empty ones, compressed or stored, whatever the containers' reserved header bytes hold - the reader
  returns the same objects as for the uncut stream. Objects stored directly in the file outside any container are returned as well,
  in file order.""",
  ["inputs"],
  "All placements of container cuts in a short stream (every 1-, 2- and 3-cut set, every uniform cut width, all cut subsets in a header-sized window).",
  "Tests only ever read files this library wrote with one buffer size, where cuts fall at multiples of 128 KiB.",
  [R], [("carry-over of incomplete tail", R + ":_generate_objects")],
  [("_incomplete_data", "tail of the previous container", R)], ["objects returned by BlfReader"])

p("C03", "Filler bytes and signature look-alikes never hide or invent an object",
  """Whatever filler bytes stand between objects or between containers - any number, any values, as long
  as they do not themselves contain a full object signature - every object is returned once and
  unchanged. An object whose own content contains object or file signatures, or whole serialised
  objects, is returned as that one object.""",
  ["inputs"],
  "All filler strings up to 7 bytes over the signature's letters and zero, at every gap; payloads that contain signatures at every offset, combined with container cuts.",
  "The tests' logs contain only zero padding and no payload resembling a signature.",
  [R, K], [("byte-wise search for the next object signature", R + ":_generate_objects")],
  observe=["objects returned by BlfReader"])

p("C04", "A log cut off by a crash yields an exact prefix of what was written",
  """If the writing process dies at any point, so that only some prefix of the bytes it had produced is
  in the file (or the final rewrite of the file header is torn), then as soon as the file header is
  complete the file can be opened and read to its end without error. The reader returns an exact
  prefix of the written objects, which includes every object lying entirely in containers that are
  completely in the file.""",
  ["crash_points", "histories"],
  "Every byte-length prefix of the produced file for each write history, buffer size and compression level, plus every torn state of the closing header rewrite.",
  "No test reads an unclosed or truncated file.",
  [W, R], [("append-only containers, header rewritten in place at close", W + ":close"), ("incomplete tail handling", R + ":_generate_objects")],
  observe=["objects returned by BlfReader on the truncated file"])

p("C05", "The closed file's header statistics are true",
  """After closing, the file header states the number of objects written, the actual size of the file in
  bytes, the uncompressed size (header size plus the sizes of all written objects), the chosen
  compression level and the times (UTC, millisecond resolution) at which logging started and the last
  object was written. It begins with the signature LOGG and its own size (144), names the library's version and an unknown application, and its
  reserved parts are zero. A header read back by the reader shows exactly these values.""",
  ["histories", "configurations"],
  "All write histories up to a depth, including the empty one, x buffer sizes x compression levels x clock readings.",
  "No test looks at the header of a written file.",
  [W, G], [("running counters", W + ":write"), ("header rewrite at close", W + ":_update_file_statistics"), ("header codec", G + ":FileStatistics")],
  [("_file_statistics", "running header", W)], ["BlfReader.file_statistics", "first 144 bytes of the file"])

p("C06", "A refused write leaves no trace",
  """Writing an object that cannot be represented - a number outside its field's range, a text with a character
  that its encoding (cp1252, or UTF-8 in diagnostic requests) does not have, a value of another kind than the field's or none at all, or a serialised length that contradicts the object's
  declared size - or anything that is no log object raises an exception, and the log then behaves
  as if that call had not been made: all other objects are read back unchanged and the header counts
  exclude it.""",
  ["histories", "inputs"],
  "Refused writes of every kind (every numeric field of every object type just outside its range; inexpressible characters; declared size too small/large) at every position of short histories and buffer sizes.",
  "No test makes a write fail.",
  [W] + OBJ, [("size check before buffering", W + ":write"), ("range check by the struct codec", "pack() of every class")],
  observe=["exception of write()", "objects and statistics read back"])

p("C07", "Less than one buffer of accepted data is ever held back, in bounded containers",
  """After every successful write, the serialised bytes that were accepted but not yet handed to the file
  amount to less than the configured buffer size (128 KiB unless another is chosen), however large the objects are. No container holds
  more than one buffer size of object data, and every container starts at a multiple of 8 bytes in
  the file.""",
  ["histories", "configurations"],
  "All histories over objects smaller than, equal to and many times larger than the buffer, all small buffer sizes, fixpoint over writer states.",
  "Tests never inspect the file before close and never write an object larger than the buffer.",
  [W], [("flush when the buffer is full", W + ":write"), ("alignment padding", W + ":_flush_container")],
  [("_buffer", "serialised objects not yet in a container", W)], ["bytes received by the file object after each call"])

p("C08", "A transient file error loses and corrupts nothing",
  """If an operation on the underlying file fails with an exception of any kind - a write, having stored none or only a part of its bytes, or a seek, tell, flush
  or close, before or after its effect - and the caller carries on (further writes, or close again), then once close succeeds the log contains every object whose write
  call returned normally, exactly once and in order, and nothing that was not written. An object whose
  own write call raised is either present once at its place or absent, and the header's object count
  equals the number of objects in the file.""",
  ["fault_sequences", "histories"],
  "Every file-write call of short histories failing once (storing 0, 1, half or all but one of its bytes), every pair of failures, runs of consecutive failures; every other file operation likewise; all small buffer sizes.",
  "No test injects an I/O error.",
  [W], [("data leaves the buffer only when it is in the file", W + ":_flush_container")],
  observe=["objects read back after recovery"])

p("C09", "Logging does not depend on how the clock behaves",
  """Whatever the system clock does while a log is being written - stands still, jumps forward or steps
  backward by any amount within the years 1 to 9999 between any two calls - every write and close succeeds and the log reads back
  completely.""",
  ["fault_sequences", "histories"],
  "All sequences of clock steps (back a day, back 1 us, none, forward 1 ms, forward years) between operations of short histories.",
  "Tests run on the real clock in milliseconds; it never steps back.",
  [W, G], [("timestamps taken from the wall clock", W + ":_flush_container,_update_file_statistics")],
  observe=["exceptions", "objects read back"])

p("C10", "Decoding and re-encoding any supported object reproduces its bytes",
  """For every supported object type and every well-formed serialised object of that type, whatever the
  values of its header and fields, encoding the decoded object yields the identical bytes. Decoding
  those bytes again yields an equal object (a floating-point value that is not a number counting as equal to itself).""",
  ["inputs"],
  "Every field of every type: all 8- and 16-bit values, all bit/byte-position patterns of wider fields, all pairs (and triples, thorough) of boundary values, on several backgrounds.",
  "Tests check one sample per type, in which many fields are equal or zero.",
  OBJ, [("pack/unpack pairs", "every class")], observe=["unpack() then pack()"])

p("C11", "Every field is read from and written to its place in the BLF layout",
  """For every supported object type and the file header, each named attribute of a decoded object equals
  the little-endian value at that field's position in the BLF layout, and no other field's bytes
  influence it. An object built from attribute values is encoded with each value at that same position.""",
  ["inputs"],
  "All field/value combinations as for C10, compared with an independent layout table of every type.",
  "One sample per type cannot tell swapped, overlapping or partially masked fields apart for all values.",
  OBJ, [("struct formats and field order", "every class")], observe=["attributes of unpack()", "pack()"])

p("C12", "Variable-length names, texts and data survive at any length and content",
  """For every object type with variable-length parts, every combination of part lengths from zero up, and
  every content valid in the part's encoding, decoding returns each part exactly and re-encoding
  reproduces the bytes. A text field that carries a terminating zero loses nothing but that terminator
  on decoding, and a text without a terminator loses nothing.""",
  ["inputs"],
  "All length combinations up to a bound and around 8-bit/16-bit boundaries; all encodable bytes and 1-4 byte UTF-8 characters at every position.",
  "Tests use one three-letter name and one text with a terminator.",
  [G, CAN, ETH, FR, TP], [("length-prefixed slicing", "AppText, EnvironmentVariable, SystemVariable, EventComment, GlobalMarker, FunctionBus, TriggerCondition, DiagRequestInterpretation, EthernetFrameEx, FlexrayVFrReceiveMsgEx")],
  observe=["unpack()/pack()"])

p("C13", "Every object type is dispatched correctly and unsupported ones are kept verbatim",
  """Objects of a supported type are returned as that type's class. Objects of any other type, including
  type codes unknown to the library, are returned in file order as opaque objects that hold their exact
  serialised bytes, and writing such an object to a log reproduces those bytes. An object of a class that the user derives from the library's is
  written with exactly the bytes its pack method returns.""",
  ["inputs"],
  "All type codes 0..65535 plus 32-bit boundary codes, sizes from 16 bytes up, mixed with supported objects.",
  "Only supported sample objects pass through the reader in the tests.",
  [R, G, K], [("type-to-class table", R + ":OBJ_MAP"), ("opaque object", G + ":NotImplementedObject")],
  observe=["type(obj), obj.pack()"])

p("C14", "Each object is delivered exactly once however the reader is consumed",
  """Any mixture of fetching single objects, iterating, abandoning and restarting iteration delivers each
  object of the log exactly once and in order. After the last object, single fetches keep returning None
  and iterations keep being empty.""",
  ["histories"],
  "All sequences of consumption operations up to a depth on logs of 0-4 objects in 1-3 containers.",
  "Tests either iterate once or fetch once in a loop.",
  [R], [("one shared generator", R + ":read_object,__iter__")], [("_generator", "read position", R)], ["sequence of delivered objects"])

p("C15", "Readers, writers and objects are isolated from each other, also across threads",
  """Threads that each use their own reader, writer or objects - or only serialise and read the attributes
  of a shared object - obtain the same results under every interleaving as when run one after another.
  An object changed after it was written does not change the log, writing does not change the object,
  and objects already returned by a reader are not changed by further reading.""",
  ["schedules", "histories"],
  "All thread interleavings at source-line (and opcode, thorough) granularity up to a preemption bound, and all interleavings of whole operations on several instances.",
  "Tests are single-threaded and use one reader and one writer at a time.",
  [W, R] + OBJ, [("no shared mutable state", "all modules")], observe=["results of each thread"])

p("C16", "Closing a log is complete, final and idempotent",
  """Closing a writer - directly, by leaving its with-block, or because the block raised - stores every
  accepted object, finishes the header and closes the file; it terminates for every accepted buffer size
  and never swallows the block's exception. Closing again changes nothing, and a write after close
  raises instead of silently discarding the object. Leaving a reader's with-block closes its file.""",
  ["histories", "configurations"],
  "All sequences of write/close/with-exit/exception operations up to a depth, over buffer sizes including non-positive ones.",
  "Tests use one with-block without exceptions.",
  [W, R], [("close guarded by the file's state", W + ":close"), ("context manager exit", W + ":__exit__")],
  observe=["file contents and state after each operation"])

p("C17", "What is not a BLF file is rejected at open",
  """Opening a file or stream that is shorter than the file header or does not begin with the file
  signature raises ValueError, and something that is neither a path nor a file object raises TypeError.
  Every input with a complete header and the right signature is accepted, whatever the remaining header
  bytes are, and none of them but the compression level influences which objects are read.""",
  ["inputs"],
  "All input lengths 0..144+, all single- and multi-byte deviations from the signature, all values of every remaining header byte, with the objects behind it.",
  "No test opens an invalid file.",
  [R, G], [("length and signature check", R + ":__init__"), ("tolerant header decoding", G + ":FileStatistics.unpack")],
  observe=["constructor outcome"])

p("C18", "Damage to a log never affects objects before it and never hangs the reader",
  """If any byte of a log is changed to any value, every object lying entirely before that byte's container
  (in an uncompressed container: before that byte) is still returned unchanged, and reading ends after
  finitely many steps, normally or with an exception. No object is ever returned
  whose declared size is not the number of bytes it was decoded from; an object declaring a size
  smaller than its own header never swallows the objects after it.""",
  ["inputs", "fault_sequences"],
  "Every single-byte change (all positions, all 255 values) of small compressed and uncompressed logs; every undersized size field at every object position.",
  "No test reads a damaged file.",
  [R], [("size-driven reading and resynchronisation", R + ":_generate_objects")], observe=["objects returned before the damage", "termination"])

p("C19", "Calendar times convert without error or drift",
  """Converting any date and time to the file's calendar format yields the same year, month, day, weekday
  (0 = Sunday), hour, minute and second and the nearest millisecond, saturating at 999. Converting back
  yields that time again, and a stored millisecond value beyond 999 never makes the conversion fail.""",
  ["inputs"],
  "All days of a 400-year Gregorian cycle (all of years 1-9999 in thorough), all seconds of a day, all one million microseconds.",
  "No test converts a time.",
  [G], [("field copy and rounding", G + ":SystemTime")], observe=["from_datetime()/to_datetime()"])

p("C20", "Headers and sub-records decode and encode correctly at any offset",
  """Decoding a header or sub-record at an offset inside a larger buffer gives the same result as decoding
  its bytes alone, for every offset and whatever surrounds it. Encoding it at an offset writes exactly
  its own bytes there and changes nothing else in the buffer.""",
  ["inputs"],
  "Every offset 0..64, several surroundings (including a different valid header at offset 0), all header and sub-record classes.",
  "Tests only decode at offset 0 or at one fixed nested offset.",
  [G, LIN], [("unpack_from/pack_into", "SystemTime, ObjectHeaderBase, ObjectHeader, VarObjectHeader, LIN sub-records")],
  observe=["unpack_from()/pack_into()"])

p("C21", "Objects created through the convenience constructors are complete and readable",
  """An object made with a class's convenience constructor has a header consistent with its content
  (signature, sizes, type, flags, timestamp), can be written, and is read back as the same class with every given
  value unchanged, a payload shorter than the fixed field being extended with zeros. A payload that is too long for the field is
  refused with ValueError.""",
  ["inputs"],
  "All constructor arguments over their boundary values, all payload lengths.",
  "The tests never call a convenience constructor.",
  [CAN, G], [("new()", "CanMessage, CanMessage2, CanFdMessage, ObjectHeader, LogContainer, FileStatistics")],
  observe=["attributes, bytes and re-read object"])

p("C22", "Copying a log object by object preserves every object's bytes",
  """Reading any log of well-formed objects and writing each returned object to a new log, with any other
  buffer size and compression level, gives a log whose serialised objects are byte-identical to the
  original's, in the same order.""",
  ["inputs", "configurations"],
  "Logs over every object type (supported and not) in all pairs, all layouts of containers and filler, all target settings up to a bound.",
  "Tests never feed a reader's output to a writer.",
  [R, W] + OBJ, [("unpack/pack and size check", "reader, writer")], observe=["serialised objects of both files"])

p("C23", "Files and streams given in any supported form behave the same",
  """Naming a log by text path, bytes path or path object, or passing an open binary file object, produces
  the same file contents and the same objects on reading. Writing to an existing path replaces the
  previous contents of the file it names entirely, also through a link. Reading never changes the file and opens it for reading only; a path that cannot be opened raises
  OSError and creates nothing.""",
  ["configurations", "histories"],
  "All forms of source and destination x histories x settings, with pre-existing longer and shorter files.",
  "Tests only use path objects.",
  [R, W], [("argument handling", R + ":__init__"), ("argument handling", W + ":__init__")], observe=["file bytes", "objects"])

p("C24", "Every container describes itself truthfully",
  """Each container in a written file states its own total length, whether its content is stored or
  zlib-compressed, and the uncompressed length of that content, so that the objects can be recovered by
  any BLF reader from the container fields alone. Between one container and the next in the file, and between one
  object and the next in the content, stand only zero bytes, fewer than eight. A reader given a file whose header announces compression
  returns the objects of stored containers in it too.""",
  ["histories", "configurations"],
  "All histories and settings of C01, each file decoded by an independent BLF parser that trusts only the container fields; all stored/compressed mixtures of up to 4 containers on reading.",
  "Tests read written files only with the same library, which ignores these fields.",
  [W, R, G], [("container header", G + ":LogContainer"), ("container creation", W + ":_flush_container"), ("decompression decision", R + ":_generate_objects")],
  observe=["container bytes in the file"])

p("C25", "A value outside the library's tables does not cut off the log",
  """An otherwise well-formed object whose enumerated field (text source, variable type, bus type, object
  type, trigger state, application, compression) or text holds a value the library has no name for is
  still returned, and so are all objects after it. Known values are returned as their named
  constants. Unknown enumerator values of object fields are kept as numbers and, like unknown object types in
  headers of opaque objects and text bytes without a meaning in the text's encoding, re-encoded unchanged.""",
  ["inputs"],
  "All 8-bit values and boundary patterns of every enumerated field of every type; all 256 byte values at every text position.",
  "Samples contain only known enumerators and ASCII text.",
  [G, K, R], [("enum conversion", G + ":unpack of AppText, SystemVariable, DriverOverrun, FunctionBus, TriggerCondition"), ("tolerant conversion", K + ":from_int")],
  observe=["objects returned by BlfReader"])

p("C26", "Optional sections are read and written exactly when the object contains them",
  """For object types with optional or version-dependent sections (CAN FD extended bit timing, LIN response and
  header baud rates), the section's values are read, and written back, exactly when the object's declared size and
  offsets include it, and are reported as zero otherwise. An absent section never changes any other byte of the object.""",
  ["inputs"],
  "All declared sizes from the minimal to beyond the full layout, all payload lengths and section offsets, several values of the section fields.",
  "One sample per type exercises one combination.",
  [CAN, LIN], [("size thresholds", CAN + ":CanFdMessage64,CanFdErrorFrame64"), ("version thresholds", LIN + ":LinMessage2")],
  observe=["unpack()/pack()"])

p("C27", "Every named code stands for the number the format gives it",
  """The library's named constants - object types, application ids, compression levels, variable types, bus types, text sources,
  function bus types, trigger states, object flags, trigger flags and CAN FD flag bits - have exactly the numbers of the BLF format:
  reading that number from an object or file header gives the constant of that name (for flags: exactly the bits that are set),
  and writing the constant stores that number. No name is missing and no number has two names.""",
  ["inputs"],
  "All names in all fields that hold them in both directions; all type codes 0..4095; all 16,384 combinations of the CAN FD flags.",
  "Samples contain a handful of the more than 170 codes.",
  [K, G], [("tables", K + ":ObjType,AppId,Compression,ObjFlags,TriggerFlag,CanFdFlags,SysVarType,BusType,AppTextSource,FunctionBusType,TriggerConditionStatus"), ("conversion", K + ":from_int")],
  observe=["objects returned by BlfReader", "bytes written by BlfWriter", "vblf.constants"])

p("C28", "Objects behave as values",
  """Two objects are equal exactly if they are of the same class and all their attributes, the header's included, are equal: objects decoded
  from bytes that differ in any field are unequal. A copy of an object - by copy, deepcopy, dataclasses.replace, construction from its
  attributes in any order, or pickling - is of the same class, equal to it and encoded identically, and changing a deep or pickled copy never changes the original.""",
  ["inputs"],
  "All single-bit differences of all fields of all types, all attribute replacements, all pairs of classes, all ways to copy twice.",
  "The tests compare a sample with itself; two objects that wrongly compare equal go unnoticed.",
  [G, CAN, LIN], [("dataclass comparison", G + ":ObjectHeader,ObjectWithHeader"), ("records", LIN + ":LinDatabyteTimestampEvent")],
  observe=["==, copy, pickle of library objects"])

p("C29", "Logs of any length are read and written in bounded memory",
  """Opening a log reads only its beginning, and fetching an object reads the file no further than the container in which the object ends, but for
  a bounded read-ahead. Neither the reader nor the writer keeps objects they have handed over: the memory in use is bounded by the size of the largest object and
  container, however long the log is and however it is consumed.""",
  ["histories"],
  "All layouts of objects in containers up to a length, with the position in the file checked after every object; live objects and memory measured throughout long logs.",
  "The tests read logs with one object.",
  [R, W], [("lazy generator", R + ":BlfReader._generate_objects"), ("buffer", W + ":BlfWriter.write")],
  observe=["read calls on the file", "live objects", "allocated memory"])

p("C30", "A refused opening leaves no trace",
  """A writer given settings it cannot honour - a buffer size that is no positive integer or a compression level that is no integer from 0 to 9 - or something that
  is neither a path nor a file raises ValueError or TypeError before it touches anything: no file is created, no existing file (or link) is
  truncated or changed, a file object passed in is neither written nor moved nor closed. A reader given something that is not a log (too short
  for a header or with another signature) raises ValueError, leaves the file as it was, keeps no file open that it opened itself, and leaves a
  file object passed in open. Every level from 0 to 9 and every positive buffer size is accepted. Refused openings in any number and order
  have no effect on earlier or later openings of the same path.""",
  ["inputs", "histories"],
  "All levels and buffer sizes around the accepted ones, all header prefixes and neighbouring signatures, all forms and previous contents, all sequences of openings.",
  "The tests refuse one foreign type and look at nothing afterwards.",
  [W, R], [("settings", W + ":BlfWriter.__init__"), ("format check", R + ":BlfReader.__init__")],
  observe=["exceptions at open", "the directory", "open files of the process"])

p("C32", "A log can be read while it is being written",
  """A reader on a file that a writer is still writing, whatever the interleaving of their operations and the buffering of either file object, returns a
  prefix of the objects accepted so far, each complete and unaltered and in order, never anything else. A fetch reports the end only if no further
  complete object is in the file's complete containers at that time; opening is refused only while the file does not hold a whole file header.
  Reading, with any number of readers, does not change what the writer writes.""",
  ["schedules", "histories"],
  "All interleavings of the operations of one writer and one or two readers on the same file up to a length, for all bufferings.",
  "The tests read files that are complete.",
  [R, W], [("end of data", R + ":BlfReader._generate_objects"), ("containers are appended whole", W + ":BlfWriter._flush_container")],
  observe=["objects returned while the file grows", "the finished file"])

p("C33", "A file error while reading is reported, never mistaken for the end of the log",
  """If an operation on the underlying file fails with an exception of any kind (but those that Python's iteration itself uses) while a log is opened or read - whichever operation, before or after its effect, any
  number of times - the opening, fetch, iteration or with-block in which it happens raises that very exception: it is never swallowed, replaced by another, or reported as the end of
  the log or as a wrong file format. Until then every object of the log is returned unaltered and in order, and afterwards nothing but further objects of the log, in order, or the end. Leaving a
  with-block through the error closes the file; other readers are not disturbed, and opening the file anew reads everything.""",
  ["fault_sequences", "histories"],
  "Every file operation of reading a log, failing before or after its effect, in every combination up to a size, for every way of consuming the reader.",
  "No test reads from a failing file.",
  [R], [("opening", R + ":BlfReader.__init__"), ("file operations of reading", R + ":BlfReader._generate_objects"), ("fetching", R + ":BlfReader.read_object"), ("leaving", R + ":BlfReader.__exit__")],
  observe=["exceptions that reach the caller", "objects returned"])

p("C34", "An interrupt at any moment loses and corrupts nothing",
  """Wherever in the library's code an exception from outside strikes (Ctrl-C, a signal handler's timeout, an exit request), any number of times: it reaches the caller
  unchanged. If it strikes write or close, the writer stays usable, and once close has returned (repeated if it was interrupted) the log is well-formed and holds every object
  whose write had returned exactly once, unaltered and in order, each interrupted write's object once or not at all, and nothing else; its header states the file's
  size, and its counts differ from the log's content by no more than the interrupted writes. If it strikes a reader, no wrong object is returned then or later: what that reader still returns are
  further objects of the log in order, and other readers and new readers of the file return everything. An interrupted encoding, decoding or comparison leaves the object as it was and
  can be repeated; an interrupted opening keeps no file open, leaves a file to be read unchanged, and can be repeated.""",
  ["fault_sequences", "crash_points", "histories"],
  "Every point of execution at which the interpreter delivers signals, in every call of bounded histories; all pairs of points in short ones.",
  "No test is interrupted.",
  [W, R] + OBJ, [("flush", W + ":BlfWriter._flush_container"), ("write", W + ":BlfWriter.write"), ("close", W + ":BlfWriter.close"), ("reading", R + ":BlfReader._generate_objects")],
  observe=["exceptions that reach the caller", "bytes of the closed file", "objects returned"])

p("C31", "Results depend on nothing but the inputs, and the process is left alone",
  """What reading, writing, encoding, decoding and refusing yield - bytes, objects, exceptions - is a function of the arguments, the files and the clock alone. Interpreter options
  (optimisation, warnings as errors, development mode, UTF-8 mode, -bb), hash seed, locale, time zone, working directory, umask, the place of use (main program, thread, forked child, coroutine,
  finalizer, deep or shallow stack, garbage collection on or off, tracing, closed standard streams), the order of imports, the placement of the package (installed, source tree without metadata, zip file,
  compiled only) and earlier uses of the library make no difference. Importing and using it, also when a use ends early or fails, changes no process-wide state (working directory,
  environment, locale, warning filters, signal handlers, recursion limit, garbage collector, logging set-up, open files, threads, ...) and writes nothing to the standard streams.""",
  ["configurations", "histories"],
  "All combinations of interpreter options, environments, places of use, import orders and orders of use, each compared with a plain process item by item.",
  "The tests run under one configuration.",
  [R, W, G, "src/vblf/__init__.py"] + OBJ, [("version", "src/vblf/__init__.py:__version__"), ("whole library", R + ":BlfReader"), ("whole library", W + ":BlfWriter")],
  observe=["outcomes in separate processes", "process-wide state", "standard streams"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
