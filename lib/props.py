"""The checks: harness sources, level and notes of each claimed property."""
EXPLORE = "bounded exhaustive exploration (stateless model checking) of the real code against a reference model: "
SETUP = "python3 --version && ninja --version && g++ --version | head -1 && python3 gen.py >/dev/null"
NOT_APPLICABLE = {}
PROPS = {
    "C01": dict(src=["c01.cc"], level="exploration", technique=EXPLORE + "all small tables over boundary alphabets, encode then decode",
                note="Exhaustive within the stated alphabets and sizes; nothing is said about longer columns or values outside the alphabet."),
    "C02": dict(src=["c02.cc"], level="exploration", technique=EXPLORE + "all present/missing patterns and histories of missing value changes",
                note="Exhaustive over the stated cell alphabets, sequence lengths and custom missing values."),
    "C03": dict(src=["c03.cc"], level="exploration", technique=EXPLORE + "all layouts, interfaces and sinks of all small table shapes",
                note="Exhaustive over the stated shapes, layouts and sinks; ASan with exactly sized blocks detects reads outside the cells at word granularity only between blocks, the two fills inside."),
    "C04": dict(src=["c04.cc"], level="exploration", technique=EXPLORE + "all small frames into all target layouts with canaried memory",
                note="Exhaustive over the stated frames and target layouts."),
    "C05": dict(src=["c05.cc"], level="exploration", technique=EXPLORE + "all ordered column selections of all small tables over all codecs",
                note="Exhaustive over the stated profiles, row patterns and selections."),
    "C06": dict(src=["c06.cc"], level="exploration", technique=EXPLORE + "all frame sequences and row limits against a reference aggregation",
                note="Exhaustive over the stated sequences; a row limit below the size of a single frame may be refused."),
    "C07": dict(src=["c07.cc"], level="exploration", technique=EXPLORE + "all concatenations of small streams and all histories of frame operations",
                note="Exhaustive over the stated stream pool and history depth."),
    "C08": dict(src=["c08.cc"], level="fault_enumeration", technique=EXPLORE + "every prefix of every stream of a pool through every kind of source",
                note="Exhaustive over every prefix length of the stated streams; an aggregated read may lose the logical frame under construction when the truncated frame is reached."),
    "C09": dict(src=["c09.cc"], level="fault_enumeration", technique=EXPLORE + "every single byte alteration of every header of a pool, through three readers",
                note="Exhaustive over single byte alterations (thorough: all 255 values); pairs only within the fixed part. A damage which keeps the MD5 correct is C10."),
    "C22": dict(src=["c22.cc"], level="exploration", technique=EXPLORE + "all small tables over all codecs against an independent implementation of the format",
                note="Exhaustive over the stated codecs, value alphabets and shapes; the reference implementation (src/ref.h) is written from the format, not from odc."),
    "C14": dict(src=["c14.cc"], level="exploration", technique=EXPLORE + "all small tables over all codecs, written by an independent encoder in both byte orders and read through every interface",
                note="Exhaustive over the stated codecs, value alphabets, shapes and mixtures of byte orders."),
    "C10": dict(src=["c10.cc"], level="fault_enumeration", technique=EXPLORE + "every single mutation of data bytes and header fields (checksum recomputed) of a pool of frames, read through every interface under AddressSanitizer",
                note="Exhaustive over the stated single mutations (pairs where stated); memory errors as seen by AddressSanitizer, by an allocation bound and by reading twice with different contents of fresh memory."),
    "C12": dict(src=["c12.cc"], level="exploration", technique=EXPLORE + "every small table, split and selection; spans compared with the set of the model's values",
                note="A NaN may be left out of the set, and a bare name shared by two columns may be refused or resolved."),
    "C13": dict(src=["c13.cc"], level="exploration", technique=EXPLORE + "every small property map and column description, and every sequence of accesses to frames and their copies, against a model",
                note="Bit field definitions within 32 bits, the width of a bitfield value."),
    "C11": dict(src=["c11.cc", "ctlsched.cc"], variant="sched", second="asan", level="exploration",
                technique=EXPLORE + "all thread schedules up to a preemption bound under a controlled scheduler with happens-before race detection",
                note="Exhaustive over the schedules within the preemption bound, switching at synchronisation operations and source operations; sound between them because every explored schedule is checked free of data races (accesses of code outside odc and the harness are not tracked)."),
    "C15": dict(src=["c15.cc"], level="fault_enumeration", tools=True, ldflags="-Wl,--export-dynamic",
                technique=EXPLORE + "every write of every way of producing data fails in turn, in every way, and every buffer and device size",
                note="Exhaustive over the stated single faults; errors which only the destructor of an unclosed writer could report end the process (std::terminate) and are not explored."),
    "C19": dict(src=["c19.cc"], level="exploration", tools=True,
                technique=EXPLORE + "every order of keys, limit of open files, frame split and change of structure, against a partition computed independently",
                note="Exhaustive within the stated bounds on rows, keys and structures."),
    "C16": dict(src=["c16.cc"], level="exploration",
                technique=EXPLORE + "every sequence of rows, every history of operations on a writer, every sequence of frames to read or copy",
                note="Exhaustive within the stated bounds. Values of a row which were not set are not explored."),
    "C17": dict(src=["c17.cc"], level="exploration",
                technique=EXPLORE + "every query of a grammar over every small table and frame split, through every interface, against a reference evaluation",
                note="Exhaustive within the stated grammar and tables; the SQL engine proper is eckit's, and where it departs from the standard (OR with a null operand, aggregates of no rows) queries are left out."),
    "C18": dict(src=["c18.cc"], tools=True, level="exploration",
                technique=EXPLORE + "every small document (fields, line shapes, headers, delimiters, row counts) through every way in, against the text itself",
                note="Quoted delimiters are not part of the format (such a line has too many fields and is refused)."),
    "C20": dict(src=["c20.cc"], level="exploration",
                technique=EXPLORE + "every sequence of C calls up to a depth over readers, frames, decoders and encoders, with valid and invalid arguments, against a model of what each call may return",
                note="Handles which were freed, and memory smaller than the caller says, are outside the contract of the interface."),
    "C21": dict(src=["c21.cc"], level="exploration",
                technique=EXPLORE + "every sequence of configuring calls and uses up to a depth of one decoder and one encoder, each use repeated by a fresh object",
                note="What a first use settles (row count, sizes, strides left open) counts as configured from then on; columns of the caller which overlap themselves are the caller's mistake."),
    "C23": dict(src=["c23.cc"], level="fault_enumeration", ldflags="-Wl,--export-dynamic",
                technique=EXPLORE + "every read of every kind of source comes up short or fails in turn (and in pairs), every division of the bytes, every history of the caller's descriptor",
                note="Reads of 0 bytes before the end are truncation (C08)."),
    "C25": dict(src=["c25.cc"], fortran=["src/fortran/odc_c_binding.f90", "f25.f90"], level="exploration",
                technique=EXPLORE + "every small file written and read through the legacy C interface, every interleaving of its iterators, every kind of mistake",
                note="Rows of a file must fit the caller's buffer: the interface has no way to bound what it copies."),
    "C26": dict(src=["c26.cc"], level="exploration", fortran=["src/odc/api/odc.f90", "f26.f90"],
                technique=EXPLORE + "every small table and every short history of calls through the Fortran module, against the C interface",
                note="Optional arguments are passed as present or absent in every combination used."),
    "C24": dict(src=["c24.cc"], level="exploration", tools=True,
                technique=EXPLORE + "every small pair of inputs of each tool, against a model of what the tool promises",
                note=""),
}
