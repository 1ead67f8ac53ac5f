#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand; not used by any check)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]="none: public API only"
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
CORE="src/GenericContainer.cc"; HH="include/GenericContainer/GenericContainer.hh"
PRO="src/GenericContainerPromote.cc"; SER="src/GenericContainerSerialize.cc"

p("P01","Stored values read back exactly, under the right type",
 "After a value of any supported kind (pointer, bool, int, long, real, complex, string, typed vector, typed matrix, generic vector, map) is stored through any setter, assignment operator or constructor, the container reports that kind and every accessor of that kind (typed getters, get_value, element access, data pointers, element/row/column counts) returns exactly the stored value, whatever the container held before. This includes NaN, infinities, signed zero, extreme integers, strings with any bytes, and empty sequences: nothing of the previous content survives a store. Read-only accessors of a kind that does not match the stored one throw instead of reinterpreting the data (mutable vector and matrix getters may instead promote narrower numeric content to the requested kind).",
 ["inputs","histories"],"every supported kind x every previous kind x every boundary value and every length up to a bound, via every storing entry point",
 "the examples store a few small literals into fresh containers and only check the exit status",
 [CORE,HH],[("set_*/allocate_*",CORE+": set_*, allocate_*"),("get_*/ck/ck_or_set",CORE+": get_*, ck"),("operator=/constructors",HH+": set(), operator=")],
 [("m_data_type","discriminant of the stored union"),("m_data","union of scalars and owned pointers")],["get_type, get_type_name, get_*, get_num_elements, num_rows, num_cols"])
p("P02","Copies are deep, equal and independent, even when aliased",
 "Copy construction, assignment, load, from_gc and to_gc give the destination exactly the value the source had when the call was made, recursively and with the same kinds, whatever the destination held before. Afterwards no modification or destruction of one container is visible in the other. This also holds for self-assignment and when source and destination are part of one another (a child assigned to its parent, or a parent to its child), and when a string, complex number, typed vector or matrix that lives inside a container is stored through its reference into, or (strings and complex numbers) pushed onto, that container or any part of it.",
 ["inputs","histories"],"every source tree up to a bound x every previous destination state x every source/destination position inside one tree x every later mutation of either side",
 "tests copy a couple of fixed containers between distinct objects and never mutate both sides afterwards",
 [CORE],[("from_gc/to_gc",CORE+": from_gc, to_gc"),("operator=(GenericContainer const&), copy constructor",HH)],
 [("m_data","owned storage that must not be shared")],["public getters on both containers"])
p("P03","No operation sequence leaks, double-frees or touches freed memory",
 "For every sequence of public operations (stores, kind changes, clear, copies, insert/erase, promotions, pushes, indexed growth, collapse, (de)serialisation, and calls that throw), each piece of storage the container allocates is released exactly once and no freed, unowned or uninitialised storage is read or written. When every container of the program is destroyed, all memory they allocated has been returned.",
 ["histories"],"every operation sequence up to a depth over an operation alphabet that covers all kinds, and every pair of kinds for kind-changing operations",
 "tests run uninstrumented, in one order each, and exit before any leak would be observable",
 [CORE,PRO,SER],[("clear/destructor",CORE+": clear"),("allocate_*",CORE+": allocate_*"),("promote_*",PRO)],
 [("m_data","owning union, manual new/delete")],["heap accounting and address/undefined-behaviour instrumentation around public calls"])
p("P04","Binary serialization round-trips every container exactly",
 "For every container, serialize into a buffer of at least mem_size() bytes writes and returns exactly mem_size() bytes, and de_serialize of those bytes into a container in any state consumes exactly that many bytes and reproduces a container equal to the original in kinds, shapes, keys and bit-exact values. Bytes of the buffer beyond mem_size() are neither written nor needed, so serialized containers can be stored back to back.",
 ["inputs"],"every container tree up to a bound, all kinds, all lengths up to a bound, all byte values in strings and keys, boundary numbers, any previous state of the receiving container",
 "one example serializes one fixed map and prints it",
 [SER],[("mem_size",SER),("serialize",SER),("de_serialize",SER)],
 [("buffer layout","int32 tag, sizes, payload, recursively")],["serialize/de_serialize/mem_size return values, buffer bytes, content of the result"])
p("P05","(De)serialization never leaves the buffer and rejects bad input",
 "serialize into a raw buffer smaller than mem_size() throws and never writes outside the buffer (the overload that takes a byte vector grows the vector as documented). de_serialize of any byte string (truncated at any point, with any byte corrupted, or arbitrary) either throws or yields a well-formed container, never reads outside the buffer, never allocates storage out of proportion to the buffer, and always terminates; a strict prefix of a valid serialization is always rejected.",
 ["inputs","fault_sequences","crash_points"],"every truncation point and every single-byte corruption of every serialization in a bounded family, all buffer sizes, all short byte strings over an alphabet",
 "tests only decode what they have just encoded",
 [SER],[("buffer_to_*",SER),("*_to_buffer",SER),("de_serialize",SER)],None,["exceptions, guard bytes around the buffer, instrumented memory accesses"])
p("P06","compare_content is empty exactly for equal containers",
 "a.compare_content(b) terminates for every pair of containers and returns an empty string exactly when a and b have the same kind and the same content recursively (types, lengths, shapes, keys, values), and a non-empty description otherwise; it is symmetric in that respect and modifies neither container.",
 ["inputs"],"every ordered pair of containers of a bounded family covering all kinds, plus every single-position difference in sequences, matrices and nested trees",
 "no test calls it on vectors at all (it used to loop forever)",
 [CORE],[("compare_content, compare_vector, compare_matrix",CORE)],None,["returned string"])
p("P07","Scalar conversions are lossless or throw",
 "Asking a scalar container for another numeric type (get_as_int/uint/long/ulong, get_number, get_complex_number, get_value of an integer or floating type) returns the mathematically equal value when the target type can represent it (a floating target gets the nearest floating value; bool counts as 0/1, a complex value needs zero imaginary part for a real or integer target, a real needs to be an in-range whole number for an integer target) and throws otherwise. It never truncates, wraps around, or invokes undefined behaviour, and never changes the container.",
 ["inputs"],"every scalar kind x every target type x boundary values (all powers of two +-1, limits, +-ulp, halves, NaN, inf, subnormal)",
 "the examples convert a handful of small values",
 [CORE],[("get_as_*",CORE),("get_value<T>",CORE),("get_number/get_complex_number",CORE)],None,["returned value or exception"])
p("P08","Keyed lookups return the first present key's value or fail cleanly",
 "exists, must_exists, get_if_exists, get_map_* and operator() with a key or a list of keys see exactly the keys present in the map (byte for byte, whatever follows the key in memory): a list selects the first listed key that qualifies, a present value is returned exactly (numeric targets under the lossless-or-fail rule), and an absent key or a value of an unusable kind is reported by false or an exception. A list given to get_map_* is a path through nested maps. A failing get_if_exists leaves the output variable untouched, and no lookup changes the map (the mutable get_map_vec_real/complex may widen the entry they return a reference to, keeping its numbers).",
 ["inputs"],"every key list up to a bound over present/absent/prefix/extension keys x every stored kind and boundary value x every lookup entry point",
 "examples look up a few keys, always as NUL-terminated literals",
 [CORE,HH],[("exists/must_exists",CORE),("get_if_exists",CORE),("get_map_*",CORE),("operator()(string_view)",CORE)],None,["return value, output argument, exception, content of the map"])
p("P09","copyto_vec_*/copyto_mat_* deliver exact data or throw",
 "copyto_vec_{int,uint,long,ulong,real,complex,string} from a scalar, a typed vector or a generic vector, and copyto_mat_{int,long,real,complex} from a scalar, vector or matrix, give the destination exactly the stored elements in order and with the stored shape, each converted without loss (to floating targets: to the nearest value), whatever the destination held before. If any element cannot be represented in the target type, or the kind is not convertible, the call throws; the source is never changed.",
 ["inputs"],"every source kind x every target x every length/shape up to a bound x boundary values at every position x any previous destination content",
 "examples copy small int/real vectors only",
 [CORE,PRO],[("copyto_vec_*",CORE),("copyto_mat_*",CORE)],None,["destination content or exception"])
p("P10","Promotions preserve values, order and shape",
 "Every promote_to_* call (to int/long/real/complex, to vectors and matrices of these, to a generic vector) either leaves the container holding the requested kind with exactly the same values in the same order (64-bit integers become the nearest real; a scalar becoming a one-element vector or 1x1 matrix, a vector becoming a single-column matrix with as many rows as the vector has elements, a bool becoming 0/1) or throws and leaves it unchanged.",
 ["inputs","histories"],"every kind x every promotion x all lengths/shapes up to a bound x boundary values; every promotion sequence up to a depth",
 "examples promote one or two small values in one fixed order",
 [PRO],[("promote_to_*",PRO)],[("m_data","reallocated while the old value must stay readable")],["get_type and getters afterwards, exception"])
p("P11","push_* appends exactly one element and keeps the others",
 "Pushing a value onto a container holding a typed vector, a generic vector or a numeric scalar appends exactly one element at the end: all previous elements keep their value and position, the sequence is promoted to a wider element kind only as far as needed to represent both old and new values exactly, and the new last element equals the pushed value (64-bit integers become the nearest real in a real or complex sequence). If the push cannot be performed it throws and the previous elements are unchanged.",
 ["histories","inputs"],"every push sequence up to a depth over all push operations and boundary values, from every starting kind and length up to a bound",
 "examples push a few values of increasing type once",
 [CORE,PRO],[("push_bool/int/long/real/complex/string",CORE)],None,["getters after each push"])
p("P12","Element access addresses exactly the requested element, in bounds",
 "Element access by position ([], (), get_*_at, get_number_at, matrix (i,j), get_row, get_column, data pointers) reads and writes exactly the element at that position - matrices are consistently column-major, and row/column counts are never confused - and every access outside the current size, or row or column range, of a read-only access throws instead of returning another element or foreign memory. Growing accesses (non-const [i] and get_*_at(i) on vectors) extend the sequence to exactly i+1 elements and keep all existing elements (a typed mutable access to an element of a generic vector that has another kind replaces that element).",
 ["inputs","histories"],"all shapes up to a bound (incl. empty and non-square) x all indices up to beyond the bound x all vector/matrix kinds and accessors; write-then-read of every element",
 "examples access a few in-range elements of one or two shapes",
 [CORE,HH],[("get_*_at",CORE),("operator[]/operator()",CORE),("mat_type::operator(), get_row, get_column",CORE)],None,["returned values/references, exceptions, sizes"])
p("P13","Map containers behave as a dictionary under any history",
 "Under every sequence of insertions, overwrites, erases, merges, lookups and nested updates a map container holds exactly the keys inserted and not erased, each bound to the last value stored under it (indexing a container that is not a map with a key makes it a map holding just that key); get_keys and get_num_elements report exactly these keys (sorted, each once). merge adds precisely the other map's entries (theirs winning, nested as specified by assignment) and nothing else, and fails without effect on non-map operands.",
 ["histories"],"every operation sequence up to a depth over a small key/value alphabet, compared with a reference dictionary after every step",
 "tests build one map each and never erase, overwrite and re-insert",
 [CORE],[("operator[](string)",CORE),("erase/merge/get_keys",CORE)],None,["get_keys, exists, get_num_elements, content"])
p("P14","Read-only and failing calls leave the container unchanged",
 "No const operation (getters, lookups, conversions, copyto, comparison, dump/print/info, writers, serialization) changes the container, whether it succeeds or throws, and a mutable accessor or promotion that throws because of a wrong kind leaves content and kind as they were. Text-producing operations also leave the output stream's formatting state (base, flags, precision, fill, width) as they found it, so that they never change how the caller's later output looks.",
 ["inputs","histories"],"every container of a bounded family covering all kinds x every read-only operation and every mismatching accessor x arguments",
 "tests never look at a container again after a failing or read-only call, nor at the stream's flags",
 [CORE,"src_json_interface/to_json.cc","src_yaml_interface/to_yaml.cc"],[("const members",CORE),("dump/print_content_types/info",CORE),("to_json/to_yaml",'src_json_interface, src_yaml_interface')],None,["full content before/after, ios flags"])
p("P15","collapse simplifies storage without changing the data",
 "collapse() turns generic vectors whose elements fit one typed vector or matrix into it and leaves everything else alone; read as nested sequences of numbers/strings (a matrix being the sequence of its columns) the container denotes the same data before and after, for mixed numeric types included (a bool among numbers counts as 0/1; sequences with integers a real cannot hold exactly are not turned into reals). It never throws on plain data, never drops or reorders elements or keys, and a second collapse changes nothing.",
 ["inputs"],"every nested vector/map tree up to a bound over all scalar kinds with boundary values",
 "the readers are exercised on a few files whose content the tests do not check",
 ["src/GenericContainerCollapse.cc",CORE],[("collapse","src/GenericContainerCollapse.cc")],None,["content before and after"])
p("P16","JSON output is valid JSON and reads back to the same data",
 "to_json of every container of JSON-representable data (null, bool, int, long, finite real, UTF-8 strings and keys with any characters, vectors, matrices as arrays of columns, nested maps, including empty ones; complex numbers as strings re+imi), to a stream with default formatting flags and any precision and with any blank prefix, writes one syntactically valid JSON text that denotes exactly that data. from_json of that text succeeds and yields a container denoting the same data, with reals exact when the stream precision is 17 or more.",
 ["inputs"],"every container tree up to a bound, all characters in strings and keys, boundary numbers, all prefixes/indentations",
 "examples print JSON to stdout and nothing parses or compares it",
 ["src_json_interface/to_json.cc","src_json_interface/from_json.cc",CORE],[("to_json","src_json_interface/to_json.cc"),("string_escape",CORE),("from_json","src_json_interface/from_json.cc")],None,["text checked by an independent JSON parser; content after from_json"])
p("P17","JSON input is mapped faithfully and malformed text is refused",
 "from_json accepts every valid JSON document (UTF-8, numbers within the range of a double) and produces exactly the data it denotes - null, booleans, integers (int if they fit, else long, else real), reals (the nearest double), strings with all escapes, arrays in order (in collapsed form), objects with all keys - replacing whatever the container held before. For NUL-free text that is not valid JSON it returns false or throws, without crashing or hanging. The helpers JSON_to_GC and file_JSON_to_GC behave alike.",
 ["inputs"],"all documents generated by a grammar up to a bound, all numeric boundary literals, all escapes, every truncation and single-character corruption, all short strings over an alphabet",
 "the tests read a few well-formed files and do not compare the result",
 ["src_json_interface/from_json.cc"],[("decode_json","src_json_interface/from_json.cc"),("collapse","src/GenericContainerCollapse.cc")],None,["return value and content"])
p("P18","YAML output reads back to the same data",
 "to_yaml of every container of YAML-representable data (null, bool, int, long, finite real, strings and keys with any characters, vectors, matrices and maps, nested), with default formatting flags, writes a document that from_yaml accepts and that yields a container denoting the same data up to the stream precision (a matrix being the sequence of its columns, complex numbers written as re+imi, an empty map, generic vector or matrix without columns reading back as null), with strings that look like numbers, booleans or null remaining strings. from_yaml replaces whatever the container held before and returns false on text its YAML reader rejects (e.g. unterminated quotes, unbalanced closing brackets, undefined aliases).",
 ["inputs"],"every container tree up to a bound over all kinds, character classes in strings and keys, boundary numbers",
 "examples print YAML and read one file without comparing anything",
 ["src_yaml_interface/to_yaml.cc","src_yaml_interface/from_yaml.cc"],[("to_yaml","src_yaml_interface/to_yaml.cc"),("YAML_to_GC","src_yaml_interface/from_yaml.cc")],None,["return value and content after the round trip"])
p("P19","TOML output reads back to the same data",
 "to_toml of every map container of TOML-representable data (bool, int, long, real, UTF-8 strings and keys, vectors, nested maps; a complex number as the pair of its parts; a matrix as a tagged table with its row count, column count and column-major data) returns true and writes a document that from_toml accepts and that yields a container denoting the same data (in collapsed form), integers outside the 32-bit range and non-finite reals included, replacing whatever the container held before. A null anywhere makes to_toml return false, and malformed input makes from_toml return false; neither crashes.",
 ["inputs"],"every map tree up to a bound over all kinds, character classes in strings and keys, boundary numbers",
 "one example reads one TOML file without comparing anything",
 ["src_toml_interface/to_toml.cc","src_toml_interface/from_toml.cc"],[("GC_to_TOML","src_toml_interface/to_toml.cc"),("TOML_to_GC","src_toml_interface/from_toml.cc")],None,["return value and content after the round trip"])
p("P20","Data passes through the Lua interpreter unchanged",
 "A container stored as a Lua global, passed as an argument to a Lua function, or returned from one arrives with the same data (bools, integers, reals, strings with any bytes, sequences, nested maps), and reading a Lua global gives exactly the Lua value: numbers compare by value (a float that is a whole number may read as an integer), tables keyed 1..n are sequences and tables keyed by strings are maps, an empty table reads as null; complex numbers, matrices and pointers have no Lua form and arrive as nil. The Lua stack has the same height after every successful or failing call, so any number of exchanges can follow one another, and Lua errors of any kind (syntax, runtime, non-string error values, missing functions, errors raised by guarded tables of globals) and tables that contain themselves surface as exceptions.",
 ["inputs","histories"],"every container tree up to a bound through set-global/get-global/call; operation sequences including failing calls",
 "three examples run one script each",
 ["src_lua_interface/GenericContainerInterface_lua.cc"],[("GC_to_lua/lua_to_GC","src_lua_interface/GenericContainerInterface_lua.cc"),("LuaInterpreter::call","src_lua_interface/GenericContainerInterface_lua.cc")],None,["containers obtained, lua_gettop"])
p("P21","The C interface builds and reads the same trees as its command history",
 "Every sequence of C-interface calls (GC_new/select/delete, GC_set_*, GC_push_*, GC_get_*, GC_set_map/vector, GC_push_map_position, GC_push_vector_position, GC_pop_head, GC_reset_head, key iteration) acts as a cursor machine with one cursor per id: GC_new and GC_select select the container of that id, creating it empty only if the id is unknown; stores and pushes act on the element under the cursor as the corresponding C++ call would; moving to an absent key or past the end of a generic vector creates the element; the selected container ends up holding exactly the tree the successful calls describe, getters return exactly what is stored at the cursor, key iteration delivers every key of the map once, in order, and then NULL, and containers with other ids are unaffected. A call that cannot be performed (nothing selected, wrong kind, negative size or position, above the root) reports an error status (getters: 0 or NULL), does not throw through the C boundary or crash, and leaves the stored data unchanged. GC_dump and GC_print_content_types print the element under the cursor to standard output. GC_delete returns all the memory of the container.",
 ["histories"],"every command sequence up to a depth over the command alphabet, compared with a reference cursor machine after every step",
 "the C example runs one straight-line script",
 ["src/GenericContainerInterface_C.cc","include/GenericContainer/GenericContainerInterface_C.h"],[("GenericContainerExplorer","src/GenericContainerInterface_C.cc"),("GC_* functions","src/GenericContainerInterface_C.cc")],
 [("head stack","cursor path of the active container"),("gc_explorer map","id -> explorer")],["status codes, getters, GC_mem_ptr content"])
p("P22","Column tables survive being written and read as text",
 "A container of equally long named columns written with write_formatted_data (or headers and data, as vectors of columns or as a matrix, with write_table) reads back with read_formatted_data and read_formatted_data2 to the same headers in the same order and the same numbers (up to the stream precision) in the same rows and columns, for every delimiter the reader is told about (headers free of delimiters and line breaks), whether or not the text ends with a newline and whatever the reading container held before. Comment lines (first non-blank character in the comment set) anywhere never add, drop or shift data, nor do comment characters inside a line; empty lines are skipped by read_formatted_data2 and end the table for read_formatted_data; `#! name = value` comments are delivered as parameters by read_formatted_data2. write_table_formatted prints the same table aligned. Tables without exactly one header per column, with columns of different length, or text rows with a wrong number of values are refused with an exception.",
 ["inputs"],"all table shapes up to a bound x delimiters x comment/blank line placements x boundary numbers",
 "one example writes a single table to stdout",
 ["src/GenericContainerTables.cc","src/GenericContainerSupport.cc"],[("write_table*","src/GenericContainerTables.cc"),("read_formatted_data*","src/GenericContainerSupport.cc")],None,["text and content after reading"])
p("P23","MATLAB values convert to containers and back unchanged",
 "mxArray_to_GenericContainer gives, for every MATLAB value of up to two dimensions - logical, char, string, all integer and floating classes, complex, sparse (as column starts jc, rows ir and values), cells, structs and struct arrays in any nesting - a container denoting the same data whatever it held before: one element becomes a scalar, one row a vector, anything else a matrix of that shape (logicals and cells a vector, structs a map by field name, struct arrays one vector per field), each element equal (uint64 up to the int64 range). GenericContainer_to_mxArray gives for every container whose strings have no NUL the MATLAB value with the same data and shape (scalars 1x1, vectors one row, vectors of containers cell rows, maps 1x1 structs, nothing/pointers an empty matrix) and leaves the container unchanged, and the typed to_mxArray overloads give the same elements; nothing is printed.",
 ["inputs"],"all MATLAB classes x complexity x shapes, nestings and sparsity patterns; all container kinds and shapes","no test builds the MEX interface",
 ["src_matlab_interface/GenericContainerInterface_matlab.cc"],[("mxArray_to_GenericContainer","src_matlab_interface/GenericContainerInterface_matlab.cc"),("GenericContainer_to_mxArray","src_matlab_interface/GenericContainerInterface_matlab.cc"),("to_mxArray","src_matlab_interface/GenericContainerInterface_matlab.cc")],None,["mxArray content","container content"])
p("P24","The second JSON reader gives the same content as the first on every JSON text",
 "from_json2 accepts every well-formed JSON text (RFC 8259, any whitespace, nesting, escapes and number spelling, with or without a final newline) and leaves the container with exactly the content the text denotes - the same content from_json gives: every member of every object, nested arrays with their structure, integers exact, strings decoded - whatever the container held before. A text that is not JSON (truncated, trailing garbage, misplaced separators, malformed numbers or literals) is reported by an exception or a false result and never silently accepted as something else, nor does it crash; the only leniences are an empty text, unknown backslash escapes and control characters.",
 ["inputs"],"all character and token sequences up to a length, number spellings, escapes, mutations of documents",
 "one example reads one file with both readers and prints the comparison without checking it",
 ["src_json_interface/from_json2.cc","src_json_interface/jsonLexer.cc","src_json_interface/jsonParser.yy"],[("from_json2","src_json_interface/from_json2.cc"),("jsonLexer::yylex","src_json_interface/jsonLexer.cc"),("GenericContainerWrapper","src_json_interface/jsonParser.tab.hh")],None,["content after reading","reported failure"])
p("P25","Ruby values survive a container and containers do not disturb each other",
 "For every Ruby value composed of true/false, integers that fit a C int, floats, strings without NUL, symbols, arrays and hashes (or objects with to_hash) in any nesting, GenericContainer#load followed by get_data returns an equal value: booleans as booleans, integers as integers, floats bit for bit, symbols as strings (same bytes), hash keys as symbols of their text, arrays in order - integers in an array that also holds floats may come back as equal floats, arrays mixing kinds keep each element - whatever the container held before, and repeatedly. Integers or strings that do not fit raise an exception instead of being altered, and neither such a failed load nor operations on other containers affect any later load or get_data.",
 ["inputs","histories"],"all nested Ruby values up to a size and all histories of several containers up to a depth",
 "the Ruby test loads one hash and prints it, and did not run on current Ruby",
 ["src_ruby_interface/GenericContainer_ffi.rb","src/GenericContainerInterface_C.cc"],[("GC_from_hash / GC_to_hash","src_ruby_interface/GenericContainer_ffi.rb"),("class GenericContainer","src_ruby_interface/GenericContainer_ffi.rb")],None,["value returned by get_data","raised exceptions"])
p("P26","Printed text shows the whole content",
 "dump and print (to a stream or as a string) write, for every container with keys of any content and length, each element exactly once and in order: scalars and numeric vectors on one line, strings quoted, matrices row by row, one entry per element of a generic vector (its position) or map (its key), children indented by the given prefix plus one indentation per level, reals with the precision of the stream and complex numbers with stream_number_precision (imaginary part not NaN). Keys of the form `number #` or `number ##`, optionally followed by one of - = ~ _, are shown as headings (without the number; an empty line before ##; underlined with that character). print_content_types shows the same layout with the kind and size of every element instead of its data, info and get_type_name describe the kind (and size) of the container itself, and the stream operators of vectors and matrices show the same elements. Printing never crashes and never changes the container.",
 ["inputs"],"all value shapes x contexts x prefixes x indentations x precisions, all keys over a heading alphabet up to a length",
 "the examples print a few containers and nobody compares the text",
 ["src/GenericContainer.cc"],[("GenericContainer::dump","src/GenericContainer.cc"),("GenericContainer::print_content_types","src/GenericContainer.cc"),("GenericContainer::info","src/GenericContainer.cc"),("operator<<","src/GenericContainer.cc")],None,["text written"])
p("P27","Running out of memory never corrupts a container",
 "If an allocation fails (std::bad_alloc) at any point of any operation of the core library - construction, stores and kind changes, copies (also aliased), map and vector updates, promotions, pushes, indexed growth, collapse, (de)serialization, conversions, comparison, printing - the operation reports it with an exception (printing may instead leave the stream failed), nothing leaks, operands that the operation only reads keep their value, and every container involved still is a well-formed container: it can be read completely, used in any further operation, given a new value that then reads back exactly, and destroyed.",
 ["inputs","fault_sequences","histories"],"every operation on every value of a bounded universe, and after every other operation, with every single one of its allocations failing",
 "no test makes an allocation fail",
 [CORE,PRO,SER,HH],[("allocate_*, set_*",CORE+": allocate_*"),("promote_*",PRO+": promote_*"),("constructors",HH+": GenericContainer(...)"),("from_gc",CORE+": from_gc")],
 [("m_data_type, m_data","the discriminant must never announce storage that does not exist")],["exceptions, content after the failure, heap accounting"])
p("P28","Threads that share nothing, or only read, do not disturb each other",
 "Any number of threads may at the same time call read-only operations (const member functions, including lookups, conversions, copies of the container, comparison, serialization, printing, JSON/YAML/TOML writing, and calls that throw) on one and the same container, and any operations - reading and writing text formats and bytes, tables, Lua interpreters of their own, mutation - on containers of their own, even if those are copies of one another: there is no data race and every thread obtains what it would obtain alone. (The C interface keeps one selected container per process and is excluded.)",
 ["schedules","inputs"],"all pairs of operations in two threads without synchronisation, in every order, on all kinds of containers",
 "all the tests are single threaded",
 [CORE,HH,PRO,SER,"src_json_interface/from_json.cc","src_yaml_interface/from_yaml.cc","src_toml_interface/from_toml.cc","src_lua_interface/GenericContainerInterface_lua.cc"],
 [("const member functions",HH),("text readers and writers","src_*_interface"),("file-scope and function-local static data","src/GenericContainer.cc: pcre_for_GC, stream_number_precision; src_json_interface/from_json.cc: complex_regex")],
 None,["happens-before race reports, results of each thread"])
p("P29","TOML documents are mapped faithfully",
 "from_toml accepts every valid TOML 1.0 document, however it is written (table headers, dotted keys, inline tables, arrays of tables, implied parents; bare and quoted keys; decimal, signed, underscored, hexadecimal, octal and binary integers; all spellings of reals including inf and nan; the four string forms with all escapes; single- and multi-line arrays, comments, blanks and line ends), and the container then holds exactly the data it denotes, in collapsed form: tables as maps by key, arrays in order, booleans, integers (int if every integer of a uniform array fits, else long), reals (the nearest double), strings byte for byte, and dates, times and date-times as maps with the single key $date, $time or $date_time and the RFC 3339 text - whatever the container held before. Invalid documents make from_toml return false. TOML_to_GC and file_TOML_to_GC do the same.",
 ["inputs"],"every data tree of a universe in every spelling up to a number of deviations from the default spelling",
 "one example reads one TOML file without comparing anything",
 ["src_toml_interface/from_toml.cc"],[("TOML_to_GC","src_toml_interface/from_toml.cc"),("GenericContainer::from_toml","src_toml_interface/from_toml.cc")],None,["return value and content after reading"])
p("P30","YAML documents are mapped faithfully and no text crashes the reader",
 "from_yaml accepts the YAML documents in common use, however they are written (block, flow, compact and unindented collections in any nesting; plain, single- and double-quoted, literal and folded scalars with all escapes; every spelling of null, booleans, decimal, hexadecimal and octal integers and reals including .inf and .nan; string keys; anchors and aliases, core tags, comments, document markers, CRLF), and the container then holds exactly the data they denote, in collapsed form: mappings as maps by key, sequences in order, integers as int if they fit and else as long, reals as the nearest double, strings byte for byte, null as an empty container - whatever the container held before. Any other text whatsoever, including malformed, truncated or wrongly encoded text and recursive aliases, is accepted or makes from_yaml return false: it never crashes and leaves a readable container. YAML_to_GC and file_YAML_to_GC do the same.",
 ["inputs"],"every data tree of a universe in every spelling up to a number of deviations from the default spelling; all short texts and token sequences, mutations of documents",
 "one example reads one YAML file without comparing anything",
 ["src_yaml_interface/from_yaml.cc","src_yaml_interface/fkYAML/node.hpp"],[("YAML_to_GC","src_yaml_interface/from_yaml.cc"),("GenericContainer::from_yaml","src_yaml_interface/from_yaml.cc")],None,["return value and content after reading"])
p("P31","Refused calls report the caller's position through a catchable error",
 "Every member function that takes a position (parameter `where`) and refuses the call - wrong kind, value that does not fit, index or key not present, conversion of an element that fails deep inside - throws a std::runtime_error whose text contains the given position byte for byte, whatever the stored value and wherever the failure arises; typed getters (get_int, get_vec_real, get_map, get_pvoid ...) on a non-empty container also name the stored kind (get_type_name), lookups of a single missing key name that key, and lookups along a list of nested keys name the keys followed up to the failing one. The position decides nothing: the same call with another position is refused or accepted alike. Positions and keys are string views: nothing outside the view is read, also by GenericContainer::exception(text), which throws a std::runtime_error with exactly that text (up to the first NUL).",
 ["inputs"],"every call with a position on every value of a universe, alone and nested, with unterminated views as positions",
 "no test looks at the text of an error",
 [CORE,PRO],[("ck, GC_ASSERT, GC_DO_ERROR",HH),("get_*( ..., where )",CORE),("copyto_*( ..., where )",PRO),("GenericContainer::exception",CORE)],None,["type and text of the exception"])
d=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(d,"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
