"""The properties (source of properties.jsonl and MANIFEST.json; see gen.py)."""

def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext),
                why_tests_cant=why,
                anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook))

S = "src/odc/"
PROPERTIES = [
 P("C01", "What is encoded decodes to the same values and structure",
   "Decoding the bytes produced by encoding a table gives back the same columns (names, types, order, bitfield definitions) and, row by row, the same values: integers and bitfields exactly, doubles exactly (including NaN, infinities and extreme values), REAL values to 32-bit precision, strings byte for byte up to their trailing NUL padding. This holds whatever the values make the encoder choose (compact integer widths, constants, dictionaries of strings, rows that repeat leading columns, any number of columns) and however the rows are split into frames. A value that cannot be stored is refused with an error, never silently replaced by another.",
   ["inputs", "configurations"], "every table (column types, widths, values, row sequences, frame sizes), integers as longs or as doubles",
   "the tests encode a few hand written tables; codec choice depends on the range, the set and the order of the values of a whole column and row elision on the change pattern of all columns, so width boundaries and combinations are never all hit",
   [S + "core/Encoder.cc", S + "core/Table.cc", S + "codec/CodecOptimizer.h", S + "codec/Integer.h", S + "codec/IntegerMissing.h", S + "codec/Real.h", S + "codec/String.h", S + "codec/Constant.h", S + "api/StridedData.h"],
   [("codec selection from column statistics", S + "codec/CodecOptimizer.h"), ("row elision with a start column marker", S + "core/Encoder.cc encodeFrame"), ("fill of repeated values when decoding", S + "core/Table.cc decode")],
   [("min/max/hasMissing", "statistics from which the codec is chosen", S + "core/Codec.cc"), ("lastDecoded", "last row in which each column was present", S + "core/Table.cc")],
   ["odc_encode_to_buffer / odc_decode", "odc::api::encode / Decoder::decode"]),

 P("C02", "Missing values stay missing, and only missing values become missing",
   "A cell holding the missing value of its type decodes to a missing value, in every column type that has one, in any position and with any other values around it; a cell holding any other value never decodes as missing. After the caller changes the missing integer or missing double value, data encoded from then on uses the new value as missing, and the value in force when a frame was encoded is the one its missing cells decode to.",
   ["inputs", "configurations", "histories"], "every column content over present/missing cells, each codec it selects, every custom missing value and change of it",
   "tests use the default missing value in a handful of columns; the collision of real values with a codec's internal missing marker depends on exact ranges",
   [S + "codec/IntegerMissing.h", S + "codec/Real.h", S + "core/Codec.cc", S + "MDI.cc", S + "codec/CodecOptimizer.h", S + "api/odc.cc"],
   [("internal missing markers of the codecs", S + "codec/IntegerMissing.h, codec/Real.h"), ("missing value stored per column", S + "core/Codec.h load/save")],
   [("MDI", "process wide missing value indicators", S + "MDI.cc")], ["odc_set_missing_integer", "odc_set_missing_double", "decoded cells"]),

 P("C03", "The encoded bytes depend on the table, not on its memory layout",
   "Encoding the same table gives the same bytes whether its data is supplied row-major, column-major, as separate packed columns or as separate strided columns, through the C or the C++ interface, and to a buffer, a stream callback or a file descriptor. Encoding reads only the cells of the table, never modifies the caller's data and reports the exact number of bytes it produced.",
   ["inputs", "configurations"], "every table shape (mixed column widths, row counts, frame sizes) in every supported layout, interface and sink",
   "tests encode each example in one layout; index arithmetic for wide columns, strides and multi-frame slices only goes wrong in particular combinations",
   [S + "api/odc.cc", S + "api/Odb.cc", S + "api/StridedData.h", S + "core/Encoder.cc"],
   [("column-major transposition and offsets", S + "api/odc.cc fill_in_encoder"), ("slicing into frames", S + "api/Odb.cc encode, api/StridedData.h slice")],
   (), ["odc_encode_to_buffer", "odc_encode_to_stream", "odc_encode_to_file_descriptor", "odc::api::encode"]),

 P("C04", "Decoding fills exactly the requested cells, in every target layout",
   "Decoding a frame delivers the same cell values into every target layout: library-allocated or caller-supplied, row-major or column-major, one array or separate columns with any stride, one frame or several aggregated, and for targets with more rows than the frame. Every byte of a target cell is defined afterwards, bytes outside the described cells are never written, and the data pointers, widths, heights and row counts reported afterwards describe where the values really are. A target too small for the data is refused with an error, never overrun.",
   ["inputs", "configurations"], "every frame shape and every target layout, including strings narrower or wider than the target cell",
   "tests decode each sample in one or two layouts, and nothing checks the bytes around the target",
   [S + "api/odc.cc", S + "core/Table.cc", S + "core/DecodeTarget.cc", S + "api/StridedData.h"],
   [("target layout computation", S + "api/odc.cc fill_in_decoder"), ("transposition of wide columns", S + "api/odc.cc odc_decode_threaded"), ("slicing over aggregated tables", S + "core/DecodeTarget.cc")],
   (), ["odc_decoder_* / odc_decode", "odc::api::Decoder"]),

 P("C05", "Decoding selected columns is the projection of decoding them all",
   "Decoding any selection of columns in any order gives for each selected column exactly the values it has in a full decode, whatever the other columns of the frame are and wherever their values change. A column is found by its full name, or otherwise by the part of its name before '@'; an unknown name or the same column requested twice is an error, and the table is left decodable.",
   ["inputs"], "every subset and permutation of the columns of every small table, every way of naming them",
   "skipping a column relies on every codec advancing by exactly what it would have decoded and on start-column markers; tests select few columns from few tables",
   [S + "core/Table.cc", S + "codec/Integer.h", S + "codec/Real.h", S + "codec/String.h", S + "codec/Constant.h", S + "core/MetaData.cc"],
   [("column lookup", S + "core/Table.cc columnLookup/simpleColumnLookup"), ("skip()", S + "codec")], (), ["odc_decode", "odc::api::Decoder", "odc::api::Frame::hasColumn"]),

 P("C06", "Frames partition the rows, and aggregation preserves them in order",
   "Encoding N rows with at most F rows per frame yields ceil(N/F) frames holding the rows in order, all but the last with F rows. Reading frame by frame, or aggregated with any row limit, yields every row exactly once and in order; an aggregated frame merges a maximal run of consecutive frames whose columns agree in name, type and width without exceeding the limit (a limit smaller than a single frame may be refused), and never merges frames whose columns do not agree.",
   ["inputs", "histories"], "every sequence of frames (row counts, column structures) and every row limit",
   "aggregation depends on the sequence of frame sizes and structures and on the limit; tests read a few fixed files",
   [S + "api/Odb.cc", S + "core/TablesReader.cc", S + "core/MetaData.cc"],
   [("aggregation loop", S + "api/Odb.cc ReaderImpl::next"), ("column compatibility", S + "core/MetaData.cc compatible")],
   [("rowlimit_, first_, it_", "position and limit of the reader", S + "api/Odb.cc ReaderImpl")], ["odc_next_frame", "odc_next_frame_aggregated", "odc::api::Reader::next"]),

 P("C07", "Concatenated streams read as their parts; frame positions tile the stream",
   "The concatenation of ODB-2 streams is a stream whose frames are the frames of the parts in order. For every frame, offset and length delimit its bytes, consecutive frames tile the whole stream without gap or overlap, the encoded data of a frame is exactly those bytes and decodes on its own to the same frame, and frames may be decoded in any order, more than once and after the reader has moved on.",
   ["inputs", "histories"], "every sequence of small streams, aggregated or not, and every order of decoding the frames obtained",
   "position bookkeeping is shared between frames and the reader; tests decode frames once, in order",
   [S + "core/TablesReader.cc", S + "core/Table.cc", S + "core/ThreadSharedDataHandle.cc", S + "api/Odb.cc"],
   [("table positions", S + "core/Table.cc readTable"), ("shared data handle with private position", S + "core/ThreadSharedDataHandle.cc")],
   [("position_", "private read position", S + "core/ThreadSharedDataHandle.cc")], ["Frame::offset/length/encodedData", "Decoder::decode"]),

 P("C08", "A truncated stream is reported, never read as if complete",
   "For every proper prefix of a valid stream that does not end on a frame boundary, reading reports an error no later than when the incomplete frame is reached or decoded; every frame wholly contained in the prefix is still delivered intact (except that aggregated reading may give up the merged frame it was collecting), and no row of the incomplete one is ever delivered. A prefix ending on a frame boundary reads as exactly the frames it contains. This holds for files, file descriptors, memory buffers and streams.",
   ["crash_points", "inputs"], "every prefix length of streams of one to three frames, for every kind of source and both reading interfaces",
   "a test truncates one file at one place; the outcome depends on where in the header, the frame or the row the cut falls, and on the kind of source",
   [S + "core/Header.cc", S + "core/DataStream.h", S + "core/Table.cc", S + "core/TablesReader.cc", S + "ReaderIterator.cc"],
   [("magic and header reads check lengths", S + "core/Header.cc"), ("comparison of the frame end with the size of the source", S + "core/Table.cc readTable"), ("bounds checks of the row stream", S + "core/DataStream.h")],
   (), ["odc_next_frame", "odc_decode", "odc::Reader"]),

 P("C09", "A damaged frame header is detected",
   "If any byte of a frame's header (magic, format version, byte order, sizes, checksum, or the checksummed description of rows, properties and columns) is altered, reading that frame reports an error instead of delivering a frame: altering the checksummed description is always detected, and altering the fixed part never yields a frame with other contents than the original. Frames before the damaged one are unaffected.",
   ["fault_sequences", "inputs"], "every single byte of the header of each small stream, replaced by every other value",
   "no test corrupts a header systematically",
   [S + "core/Header.cc", S + "core/Header.h", S + "core/Table.cc"],
   [("MD5 of the header", S + "core/Header.cc loadAfterMagic"), ("version and byte order checks", S + "core/Header.cc")], (), ["odc_next_frame", "odc::Reader"]),

 P("C10", "Corrupt or hostile input never corrupts memory, hangs or crashes the reader",
   "Whatever bytes are presented as an ODB-2 stream, opening, iterating, describing, decoding, spanning or filtering it ends either normally or with a reported error: it never reads or writes outside its buffers, never crashes, never loops without end, never allocates memory out of all proportion and never delivers contents of memory which did not come from the stream. This includes frames whose header checksum is correct but whose description or data is inconsistent.",
   ["inputs", "fault_sequences"], "every single byte mutation of the data section and every structured mutation of header fields (with the checksum recomputed), pairs of them in the thorough tier",
   "tests only read well formed data",
   [S + "core/Table.cc", S + "core/DataStream.h", S + "core/Header.cc", S + "core/MetaData.cc", S + "core/Column.cc", S + "codec/String.h", S + "codec/Constant.h", S + "ReaderIterator.cc"],
   [("bounds checks of DataStream", S + "core/DataStream.h"), ("index checks of string dictionaries", S + "codec/String.h"), ("start column marker checks", S + "core/Table.cc, ReaderIterator.cc")], (), ["odc_* C API", "odc::api", "odc::Reader"]),

 P("C11", "Threaded decoding gives the serial result under every schedule",
   "Decoding an aggregated frame with any number of threads gives, for every interleaving of the threads, the result of decoding it with one: every row of every part is decoded exactly once, to its place, from its own bytes, whether the parts share one data source or the decoder is used again. An error in any part is reported by the call and no thread is left running; several frames obtained from one reader may be decoded concurrently with the same guarantee.",
   ["schedules", "fault_sequences"], "every schedule of 2-4 threads over 2-4 frames up to a bound on preemptions, with and without a failing read",
   "the tests decode threaded on whatever schedule happens; the shared source position makes rare interleavings matter",
   [S + "api/Odb.cc", S + "core/ThreadSharedDataHandle.cc", S + "core/Table.cc", S + "core/DecodeTarget.cc"],
   [("work queue under a mutex", S + "api/Odb.cc FrameImpl::decode"), ("seek and read under one lock", S + "core/ThreadSharedDataHandle.cc read")],
   [("next_frame", "next part to decode", S + "api/Odb.cc"), ("position_", "private position over a shared handle", S + "core/ThreadSharedDataHandle.cc")], ["odc_decode_threaded", "Decoder::decode(frame, nthreads)"]),

 P("C12", "A span is exactly the set of values of its columns",
   "The span of a frame over given columns contains for each exactly the set of distinct values its rows hold, with the column's own type, for single and aggregated frames, constant or not. With only-constant-values requested it succeeds exactly when every requested column is constant in each underlying frame, and then gives the same answer (a frame stores as a constant a column all of whose values are equal and not missing, strings up to 8 characters); unknown columns are an error, and a bare name shared by several columns may be. A NaN may be left out. Its offset and length are those of the frame.",
   ["inputs"], "every small table, aggregated or not, and every column selection, in both modes",
   "constant columns are answered from header statistics and others by a second decoding loop; tests check a few files",
   [S + "core/Span.cc", S + "core/Table.cc", S + "core/Column.cc", S + "api/Odb.cc"],
   [("constants from header min/max", S + "core/Table.cc span"), ("decodeSpan", S + "core/Table.cc"), ("extend", S + "core/Span.cc")], (), ["odc::api::Frame::span"]),

 P("C13", "Frame properties and column metadata survive encoding, reading and access",
   "Properties given to the encoder, including empty and binary-looking strings, are found in every frame it writes, together with the library's own 'encoder' entry and nothing else; enumerating them by index gives each pair exactly once and by key gives the same values, and an index or key that does not exist is reported as such. Column names, types, sizes and bitfield names, sizes and offsets are reported as encoded. An aggregated frame exposes the union of the properties of its parts, the first part winning.",
   ["inputs", "histories"], "every small property map, column description and sequence of accesses over frames",
   "index access is memoised and properties are merged lazily, so results depend on the history of calls",
   [S + "api/odc.cc", S + "api/Odb.cc", S + "core/Header.cc", S + "core/MetaData.cc"],
   [("memoised index", S + "api/odc.cc odc_frame_property_idx"), ("merge of properties", S + "api/Odb.cc FrameImpl::properties"), ("header serialisation", S + "core/Header.cc")],
   [("propertiesMemoised_", "index built?", S + "api/odc.cc")], ["odc_frame_property*", "odc_frame_column_attributes", "odc_frame_bitfield_attributes"]),

 P("C14", "Byte order of the file does not matter",
   "A stream written with the opposite byte order is read by every interface exactly as the same stream in native byte order: same frames, columns, properties, values, missing values and spans, for every codec.",
   ["inputs", "configurations"], "every codec and small table, written by an independent encoder in both byte orders",
   "the library only writes native order, so tests cannot produce foreign data beyond a few fixtures",
   [S + "core/DataStream.h", S + "core/Header.cc", S + "core/Codec.cc", S + "core/CodecFactory.h", S + "codec/Constant.h"],
   [("byte swapping data stream", S + "core/DataStream.h"), ("codecs instantiated per byte order", S + "core/CodecFactory.h")], (), ["odc_next_frame/odc_decode", "odc::Reader", "Frame::span"]),

 P("C15", "A failed or incomplete write is reported, never taken for success",
   "If the destination of an encoding accepts fewer bytes than offered, refuses them or fails at any point, the call reports an error; it reports success only if every byte of the complete encoding was accepted, in order and once. A buffer that is too small gives an error without a byte written beyond it; a buffer of exactly the right size succeeds.",
   ["fault_sequences", "inputs"], "every write call position and every short count, every buffer size from 0 to the required one, over single and multi frame encodings and each interface",
   "no test makes a sink fail",
   [S + "core/Encoder.cc", S + "api/odc.cc", S + "Writer.cc", S + "WriterBufferingIterator.cc"],
   [("comparison of written with requested length", S + "core/Encoder.cc"), ("writes of the row buffer", S + "WriterBufferingIterator.cc")], (), ["odc_encode_to_buffer", "odc_encode_to_stream", "odc_encode_to_file_descriptor", "odc::Writer"]),

 P("C16", "Row-wise writing and reading preserve the rows",
   "Rows written one by one with the row-wise writer, with any buffer size, read back by the row-wise reader and by the frame reader as the same rows in order: numbers, bitfields, missing values, and strings of any declared width, for each frame written and after columns are redefined. Conversely the row-wise reader gives for any frame-wise encoded stream the same rows as the frame reader, and reports when the columns change.",
   ["inputs", "histories"], "every sequence of small rows, column sets, flush points and structure changes",
   "row buffers, elision of repeated columns and codec reoptimisation per buffer depend on the history; tests write few patterns",
   [S + "Writer.cc", S + "WriterBufferingIterator.cc", S + "Reader.cc", S + "ReaderIterator.cc", S + "core/MetaData.cc"],
   [("row buffer and codec optimisation per flush", S + "WriterBufferingIterator.cc"), ("row decoding with start columns", S + "ReaderIterator.cc")],
   [("lastValues_, setvCallback", "values of the previous row", S + "WriterBufferingIterator.cc, ReaderIterator.cc")], ["odc::Writer<>", "odc::Reader"]),

 P("C17", "SQL selection returns exactly the rows and values the query asks for",
   "Selecting from ODB-2 data with column lists, *, conditions, expressions, ordering, distinct and aggregates gives exactly the rows and columns the query means on the decoded table, in order, with missing values treated as null, however the data is split into frames and whether it is read through the SQL iterator, filtered as a stream or filtered frame by frame. A query that is malformed or names an unknown column is an error.",
   ["inputs", "programs"], "every query of a grammar over every small table and frame split, against a reference evaluation",
   "tests run a few dozen fixed queries on fixed data, with one frame structure",
   [S + "Select.cc", S + "SelectIterator.cc", S + "sql/TODATable.cc", S + "sql/TODATableIterator.cc", S + "sql/ODAOutput.cc", S + "sql/SQLSelectOutput.cc", S + "api/Odb.cc"],
   [("table iterator feeding the SQL engine", S + "sql/TODATableIterator.cc"), ("output into the writer", S + "sql/ODAOutput.cc")], (), ["odc::Select", "odc::api::filter", "Frame::filter"]),

 P("C18", "CSV import loads every row as written",
   "Importing delimited text produces one row per data line with the named and typed columns and the values of the text, in order, for every column type, NULLs as missing values, strings of any length in any row, bitfield definitions, any single character delimiter and any row count. A line with the wrong number of fields, an unknown type or an unparsable number is an error rather than a silently shortened or altered import.",
   ["inputs"], "every small CSV document over an alphabet of fields, types, delimiters and line shapes",
   "tests import a few well formed files",
   [S + "csv/TextReader.cc", S + "csv/TextReaderIterator.cc", S + "api/Odb.cc", S + "tools/ImportTool.cc"],
   [("header parsing and row buffer growth", S + "csv/TextReaderIterator.cc")], (), ["odc::api::odbFromCSV", "ImportTool::importText"]),

 P("C19", "Splitting a file partitions its rows by key",
   "Splitting data on one or more columns writes every row exactly once, unchanged and in its original relative order, to the file whose name the template gives for its key values (numbers as integers, strings trimmed and without slashes) and to no other, creating exactly one file per distinct name, however many files may be kept open at once and however the input is split into frames. Splitting with sorting orders the rows of a file by key and keeps the original order of rows with equal keys.",
   ["inputs", "histories"], "every order of keys in small inputs, key types and widths, template shapes and limits on open files",
   "reopening evicted outputs depends on the order of keys and the limit; tests split one file",
   [S + "WriterDispatchingIterator.cc", S + "DispatchingWriter.cc", S + "tools/SplitTool.cc", S + "TemplateParameters.cc"],
   [("key to file dispatch, eviction and append", S + "WriterDispatchingIterator.cc")], [("files_, lastDispatchedIndex_", "open outputs", S + "WriterDispatchingIterator.cc")], ["odc split", "odc::DispatchingWriter"]),

 P("C20", "The C interface reports every misuse as an error code",
   "Every C call returns success, iteration-complete or an error code; on an error the installed failure handler is called exactly once with the context and the code, and the error string describes it. No sequence of calls with valid handles but invalid arguments (null outputs, indices out of range, calls before a frame was read or after iteration completed, missing configuration) crashes, corrupts memory, throws through the interface or changes results already obtained; iteration-complete is stable, and a copied frame is independent of its source.",
   ["histories", "inputs"], "every sequence of C calls up to a depth over a reader, two frames, a decoder and an encoder, with valid and invalid arguments",
   "tests call the interface in the intended order",
   [S + "api/odc.cc"],
   [("exception wrapper", S + "api/odc.cc wrapApiFunction"), ("argument assertions", S + "api/odc.cc")],
   [("reader_, frame_, propertiesMemoised_", "state of the handles", S + "api/odc.cc")], ["odc_* C API"]),

 P("C21", "A reused encoder or decoder behaves like a fresh one",
   "Using the same decoder for a series of frames, or the same encoder for a series of encodings with new data, gives for each the result a freshly configured object would give, whether memory is owned by the library or by the caller and whatever the row counts and layouts of the uses before; or the reuse is refused with an error. Nothing decoded earlier into caller memory changes later.",
   ["histories"], "every sequence of uses up to a depth over frames of different sizes, layouts and ownership",
   "cached sizes, strides and pointers from the previous use are only wrong for particular sequences",
   [S + "api/odc.cc"], [("lazy completion of the configuration", S + "api/odc.cc fill_in_decoder, fill_in_encoder")],
   [("columnData, nrows, ownedData", "cached layout", S + "api/odc.cc")], ["odc_decode", "odc_encode_to_*"]),

 P("C22", "The file format is exactly the documented one, in both directions",
   "Streams written by the library are valid for an independent implementation of the ODB-2 format, which reads from them the same structure and values (header, checksum, sizes, codecs, row markers); streams written by an independent implementation with any codec suited to the data, any permitted row marker choice and either supported minor version are read by the library as the values they describe.",
   ["inputs", "configurations"], "every codec, marker policy, minor version and small table, in both directions",
   "tests only check the library against itself and a few fixtures, so a matching error in writer and reader, or in a codec the writer no longer chooses, is invisible",
   [S + "core/Header.cc", S + "core/MetaData.cc", S + "core/Column.cc", S + "codec", S + "core/Table.cc", S + "core/Encoder.cc"],
   [("header layout", S + "core/Header.cc"), ("codec encodings", S + "codec")], (), ["encoded bytes", "decoded cells"]),

 P("C23", "How the source delivers its bytes does not matter",
   "Reading through a file path, a file descriptor, a memory buffer, a data handle or a stream callback gives the same frames and values, and a source that delivers fewer bytes than asked for, down to one at a time, gives either the same result or an error, never different data. Closing the caller's descriptor after opening, or repositioning it between calls, does not change what is read unless it shares the offset; a read error is reported.",
   ["fault_sequences", "inputs"], "every pattern of short reads up to a bound, every failing read position, each kind of source",
   "tests read whole files whose reads never come up short",
   [S + "api/odc.cc", S + "core/DataStream.h", S + "core/Header.cc", S + "core/Table.cc", S + "core/ThreadSharedDataHandle.cc"],
   [("header and data reads", S + "core/DataStream.h, core/Table.cc"), ("source adapters", S + "api/odc.cc odc_open_*")], (), ["odc_open_*", "odc::api::Reader"]),

 P("C24", "The tools compute what they promise on every input",
   "Counting reports the number of rows; setting column values or metadata changes exactly the named columns in every row and leaves everything else unchanged; merging inputs side by side gives each output row the columns of the corresponding rows of the inputs; comparing two files reports a difference exactly when their rows, values or columns differ, within the documented tolerance and options. None modifies its input.",
   ["inputs"], "every small pair of inputs (values, types, widths, missing values, frame splits, row counts) for each tool",
   "tests run each tool on one or two files",
   [S + "tools/CountTool.cc", S + "tools/SetTool.cc", S + "tools/MDSetTool.cc", S + "tools/MergeTool.cc", S + "tools/CompareTool.cc", S + "Comparator.cc", S + "RowsCounter.cc", S + "ODAUpdatingIterator.cc", S + "MDUpdatingIterator.cc"],
   [("comparison of iterators", S + "Comparator.cc"), ("updating iterators", S + "ODAUpdatingIterator.cc, MDUpdatingIterator.cc"), ("merge loop", S + "tools/MergeTool.cc")], (), ["odc count/set/mdset/merge/compare"]),
    P("C25", "The legacy C interface writes, reads, counts and selects the same rows",
       "What a program writes through the legacy C interface (odccapi.h, or its Fortran bindings in module odc_c_binding) reads back through it, row by row, with the same names, types, bit fields, missing values and values: into a new file or appended to one, with columns redefined between rows, read in full, selected by SQL, or located block by block. Counts agree with what is read, iterators open at the same time do not affect one another, no file stays open once its iterator was destroyed, and failures (files missing or damaged, wrong queries, column indices or counts of columns) are reported by an error code or an exception, never as rows or as a normal end of data. A row must fit the buffer the caller gives; whether the very first row is flagged as the start of a new dataset, and whether a query may return rows whose size changes, is left open.",
       ["inputs", "histories"], "every small file (columns, redefinitions, missing values, appends), every interleaving of the calls of several readers and selections, every kind of mistake",
       "tests write and read one file through this interface",
       ["src/fortran/odc_c_binding.f90", S + "odccapi.h", S + "odccapi.cc", S + "Writer.h", S + "WriterBufferingIterator.cc", S + "ReaderIterator.cc", S + "SelectIterator.cc"],
       [("C interface", S + "odccapi.cc"), ("columns redefined between rows", S + "WriterBufferingIterator.cc"), ("selection into the caller's buffer", S + "sql/SQLSelectOutput.cc")], (), ["odccapi.h", "Fortran programs on the legacy interface"]),
    P("C26", "The Fortran interface does what the C interface does",
       "Encoding through the Fortran module writes the same bytes as the C interface does for the same table, in whatever way the data is given (arrays by columns or rows, separate columns, sizes in bytes or doubles); reading gives the same frames, attributes (with indices from 1), bit fields, properties and cells, in the library's memory, in the caller's array or columns, without touching memory beside the cells. An optional argument left out has its documented default whatever earlier calls were given. Text arguments are taken without trailing blanks. What the C interface refuses is refused with the same result, including failed writes of the output unit; an array that is not contiguous may be refused.",
       ["inputs", "histories"], "every small table x every way of passing it, every short history of calls with every combination of optional arguments",
       "tests run one history per call, in which no optional argument is left out after having been given",
       [S + "api/odc.f90"],
       [("type-bound procedures over the C interface", S + "api/odc.f90"), ("output units", S + "api/odc.f90 write_fn")], (), ["module odc (Fortran)"]),
]


