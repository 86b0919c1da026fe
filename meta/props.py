WHO = ' Trusted: the reference model and codecs in lib/ (validated against the Google protobuf runtime where installed semantics coincide), g++.'
P('C01', 'Protobuf round-trip preserves every value and its presence',
  'For every message value which the schema can express, deserializing its protobuf serialization yields an equal value: all scalars bit for bit, all strings, bytes, lists, maps, nested messages and the active oneof member, with the presence of every optional field, for every kind of C++ type which options can select (an empty plain required string or bytes may be left out). The predicted size equals the number of bytes written, serializing the result again gives the same bytes, and every overload of the API agrees.',
  ['inputs', 'configurations'], 'all schemas shapes (every scalar kind x label x packed x wire/storage options) and all message values',
  'the tests sample a few values of a few schemas, and check one field at a time; combinations of labels, packed lists, narrowed storage, custom containers and nesting are not enumerated',
  [I+'pb/serialize.hpp', I+'pb/deserialize.hpp', I+'pb.hpp', S+'dumper/pb/dumper.cpp', S+'dumper/header.cpp'],
  [('two pass serialization (size, then bytes)', I+'pb.hpp serialize/serialize_size'), ('field switch generated per message', S+'dumper/pb/dumper.cpp'), ('varint/zigzag/fixed codecs', I+'pb/serialize.hpp, '+I+'pb/deserialize.hpp')],
  ['spb::pb::serialize', 'spb::pb::serialize_size', 'spb::pb::deserialize'],
  'exhaustive bounded enumeration of message values x fixture schemas on the real generated code against a value model',
  'Every message of the bounded value space (each field over a boundary alphabet, pairs and triples of fields, depth 2-3 nesting) on fixture schemas that cover every kind, label and option.'+WHO)
P('C02', 'Serialized bytes are the canonical protobuf wire encoding',
  'The serialized bytes of every message are exactly the protobuf wire encoding of its value: right field numbers and wire types, minimal varints, zigzag and little-endian fixed encodings, packed lists, map entries, each value exactly once; absent fields are absent (an empty plain required string or bytes may be left out). Any conforming protobuf decoder reads the same value back.',
  ['inputs', 'configurations'], 'all schemas and all message values, all field numbers',
  'a symmetric encoder/decoder defect is invisible to round-trip tests; the tests compare bytes for few values',
  [I+'pb/serialize.hpp', I+'pb/wire-types.h', S+'dumper/pb/dumper.cpp'],
  [('tag and wire type computation', I+'pb/wire-types.h, '+I+'pb/serialize.hpp serialize_tag'), ('encoder selection', S+'dumper/pb/dumper.cpp')],
  ['spb::pb::serialize'],
  'exhaustive bounded enumeration of message values; oracle: independent reference encoder/decoder',
  'Same bounded space as C01; the bytes are parsed by an independent wire parser and compared as a multiset of records with the reference encoding.'+WHO)
P('C03', 'Every valid protobuf encoding of a message is accepted',
  'Every byte sequence which the protobuf encoding rules allow for a message decodes to the value those rules give: fields in any order and interleaved, repeated occurrences of a singular field (last wins, embedded messages merge), packed, unpacked or mixed lists split over any number of records, non-minimal varints, unknown fields of every wire type anywhere, map entries with missing, repeated or extra parts.',
  ['inputs', 'histories'], 'all sequences of valid wire records, of all schemas',
  'tests feed output of the own encoder or single hand-written records; sequences of records are combinatorial',
  [I+'pb/deserialize.hpp', I+'pb.hpp', S+'dumper/pb/dumper.cpp'],
  [('record loop and field switch', S+'dumper/pb/dumper.cpp, '+I+'pb/deserialize.hpp deserialize_main'), ('skip of unknown fields', I+'pb/deserialize.hpp'), ('packed list reader', I+'pb/deserialize.hpp')],
  ['spb::pb::deserialize'],
  'explicit-state exploration: all sequences of wire records up to a depth from all reached states, each replayed on the real decoder against a reference decoder',
  'All sequences of up to 3 records (depth by schema) of an alphabet with every encoding of boundary values; the reference decoder defines the result.'+WHO)
P('C04', 'Malformed protobuf input is rejected',
  'A byte sequence which is not a complete valid encoding of a message of the given type is rejected with an exception: truncated at any point, over-long or overflowing varints, length prefixes which exceed the data or do not match the contents, reserved tags and wire types, a wire type which does not match the field, values out of the range of the field. The outcome for every short byte sequence is the one that the encoding rules give.',
  ['inputs'], 'all byte sequences; all truncations and corruptions of valid encodings',
  'tests feed a handful of malformed inputs per type; a truncation or corruption has to be tried at every position of every shape',
  [I+'pb/deserialize.hpp', I+'pb.hpp'],
  [('bounded reader with checked length prefixes', I+'pb/deserialize.hpp istream'), ('wire type checks', I+'pb/deserialize.hpp check_wire_type')],
  ['spb::pb::deserialize'],
  'exhaustive enumeration of byte strings over the wire alphabet and of all truncations/corruptions, against a reference decoder',
  'All strings up to length 4-6 over an alphabet of significant bytes plus all truncations and substitutions of valid records; documented leniencies are modelled as unspecified.'+WHO)
P('C05', 'JSON round-trip preserves every value and its presence',
  'For every message value which the schema can express, reading its JSON serialization yields an equal value with the presence of every optional field, for every string content, every number including NaN and infinities, every map key, enum name and nesting. The predicted size equals the number of bytes written, serializing again gives the same text, and every overload of the API agrees.',
  ['inputs', 'configurations'], 'all schemas and all message values, all Unicode strings',
  'tests sample a few values per type; escaping, number formats and nesting interact',
  [I+'json/serialize.hpp', I+'json/deserialize.hpp', I+'json.hpp', I+'to_from_chars.h', S+'dumper/json/dumper.cpp'],
  [('escape table', I+'json/serialize.hpp'), ('number conversion', I+'to_from_chars.h'), ('name dispatch', S+'dumper/json/dumper.cpp')],
  ['spb::json::serialize', 'spb::json::serialize_size', 'spb::json::deserialize'],
  'exhaustive bounded enumeration of message values and of all code points on the real generated code against a value model',
  'Same message space as C01 plus all code points.'+WHO)
P('C06', 'JSON output is valid JSON with the protobuf JSON mapping',
  'The JSON serialization of every message is a single valid JSON document (RFC 8259, valid UTF-8) which states exactly the value of the message under the protobuf JSON mapping: field names from the schema or json_name, 64-bit integers, floats, NaN and infinities, base64 bytes, enum names, lists, maps with string keys, no duplicated keys.',
  ['inputs', 'configurations'], 'all schemas and all message values',
  'round-trip tests accept any symmetric format; tests compare text for few values',
  [I+'json/serialize.hpp', I+'json/base64.h', S+'dumper/json/dumper.cpp'],
  [('escaping', I+'json/serialize.hpp'), ('names', S+'dumper/json/dumper.cpp')], ['spb::json::serialize'],
  'exhaustive bounded enumeration; oracle: independent strict JSON parser and value mapping',
  'Same message space as C05; output parsed by a strict independent parser.'+WHO)
P('C07', 'Every valid JSON document of a message is accepted',
  'Every JSON document which the JSON grammar and the protobuf JSON mapping allow for a message is read as the value it states: any white space, any order of members, any escape form in keys, names and values, quoted or plain numbers, enum names or numbers, original or camelCase field names, null for fields which can be absent, and unknown members with values of any shape which are ignored.',
  ['inputs', 'histories'], 'all documents of the grammar', 'documents have independent dimensions of variation at every position, tests try a few',
  [I+'json/deserialize.hpp', I+'json.hpp', S+'dumper/json/dumper.cpp'],
  [('tokenizer with 256-byte buffer', I+'json/deserialize.hpp istream'), ('key dispatch by hash', S+'dumper/json/dumper.cpp')], ['spb::json::deserialize'],
  'exhaustive bounded enumeration of messages x documents (single styles, pairs of styles, all member permutations) on the real parser against a reference',
  'All single and pairwise deviations of document style over the message space, every member permutation of small messages.'+WHO)
P('C08', 'Malformed JSON is rejected',
  'A text which is not a JSON document of the message type is rejected with an exception: truncated anywhere, missing or doubled separators, bad literals, bad escapes and lone surrogates, numbers out of range or with a fraction for integers, wrong value types, unknown enum names, elements beyond a fixed size.',
  ['inputs'], 'all texts; all truncations and edits of valid documents', 'tests feed a handful of malformed texts per type',
  [I+'json/deserialize.hpp', I+'json.hpp'], [('token checks', I+'json/deserialize.hpp'), ('escape decoder', I+'json/deserialize.hpp, '+I+'utf8.h')], ['spb::json::deserialize'],
  'exhaustive enumeration of token strings up to a depth and of all single edits of valid documents, against a reference parser',
  'Documented leniencies are modelled as unspecified.'+WHO)
P('C09', 'Chunking of input and output never changes the result',
  'Decoding via a reader gives the same value or the same failure as decoding the contiguous bytes, however the reader splits its input (including one byte at a time), for both formats. What a writer receives in pieces, what is written into a caller buffer, and what every container overload returns are the same bytes, with the same returned size, and nothing beyond them is touched.',
  ['schedules', 'inputs'], 'all partitions of all inputs', 'tests use readers that return everything or one fixed chunking; the failure needs a boundary at one specific byte',
  [I+'json/deserialize.hpp', I+'pb/deserialize.hpp', I+'io/buffer-io.hpp', I+'io/io.hpp', I+'json.hpp', I+'pb.hpp'],
  [('buffered reader', I+'io/buffer-io.hpp'), ('exact read loop', I+'pb/deserialize.hpp')], ['spb::pb::deserialize', 'spb::json::deserialize', 'spb::pb::serialize', 'spb::json::serialize'],
  'systematic exploration of environment answers: all partitions of short inputs, all 1- and 2-cut partitions of longer ones, all buffer offsets; differential oracle (contiguous decode)',
  'All compositions of inputs up to 9-14 bytes, all single cuts (and pairs) of longer ones, all chunk sizes of interest, all 256 offsets of the JSON buffer.')
P('C10', 'Exceptions of readers and writers reach the caller unchanged',
  'When the caller\'s reader or writer throws at any of its calls, during serialization or deserialization of any message in either format, the very same exception reaches the caller: it is not swallowed, replaced or turned into termination; nothing is called afterwards, and the objects can be used again.',
  ['fault_sequences', 'inputs'], 'every call of every reader and writer in every operation', 'fault injection at every call is not done by tests',
  [I+'io/io.hpp', I+'io/function_ref.hpp', I+'io/buffer-io.hpp', I+'json/deserialize.hpp', I+'pb/deserialize.hpp'],
  [('no noexcept on paths with callbacks', I+'io/buffer-io.hpp')], ['spb::pb::serialize', 'spb::pb::deserialize', 'spb::json::serialize', 'spb::json::deserialize'],
  'exhaustive fault enumeration: every call of every I/O callback throws once, for every enumerated message',
  'Every injection point (call index) of every enumerated operation.', level='fault_enumeration')
P('C11', 'Arbitrary input never corrupts memory, hangs or exhausts resources',
  'Deserializing arbitrary bytes, of either format and from a buffer or a reader, always ends with a value or an exception: no access outside of the data, no undefined behaviour, no endless loop, no stack overflow, and no memory use out of proportion to the input. A message object which survives a failed deserialization is valid and can be serialized and reused.',
  ['inputs'], 'all byte sequences', 'sampled fuzzing finds shallow defects only and is not part of the tests',
  [I+'json/deserialize.hpp', I+'pb/deserialize.hpp', I+'json/base64.h', I+'utf8.h', I+'bits.h'],
  [('depth limits', I+'pb/deserialize.hpp, '+I+'json/deserialize.hpp'), ('block-wise allocation', I+'pb/deserialize.hpp')], ['spb::pb::deserialize', 'spb::json::deserialize'],
  'exhaustive enumeration of byte strings and edits under ASan/UBSan with allocation accounting and a watchdog',
  'Bounded byte strings over significant alphabets, all edits of valid inputs, adversarial length prefixes and nesting depths.')
P('C12', 'Only valid UTF-8 passes as a string, and all of it does',
  'Every string which is not valid UTF-8 is rejected by deserialization and serialization in both formats and every string which is valid UTF-8 is accepted unchanged, at every length and alignment, in fields, lists, map keys and oneofs; bytes fields are never restricted.',
  ['inputs'], 'all byte sequences in string positions', 'the classification depends on combinations of up to 4 bytes, their alignment and their neighbours; tests try a list of cases',
  [I+'utf8.h', I+'json/deserialize.hpp', I+'pb/deserialize.hpp', I+'pb/serialize.hpp', I+'json/serialize.hpp'],
  [('fast path for ASCII words and decoder automaton', I+'utf8.h is_valid')], ['spb::utf8::is_valid', 'spb::pb::deserialize', 'spb::json::deserialize'],
  'exhaustive enumeration of all byte sequences (all 1-3 byte, all 4-byte lead classes) x offsets, against the RFC 3629 automaton', 'Independent UTF-8 classifier as oracle.')
P('C13', 'Base64 encodes all bytes and decodes exactly the valid texts',
  'For every byte sequence the JSON text of a bytes field is its standard padded base64 form, and decoding it returns the bytes; every text which is not padded base64 (wrong characters, wrong length, misplaced padding) is rejected, wherever the text lies in the input.',
  ['inputs'], 'all byte sequences and all texts', 'tests use a list of strings',
  [I+'json/base64.h'], [('encode/decode tables and tail handling', I+'json/base64.h')], ['spb::json::serialize', 'spb::json::deserialize'],
  'exhaustive enumeration of all byte strings up to 3 bytes and all 4-character groups by class, lengths x positions; reference codec', 'Non-canonical trailing bits are unspecified.')
P('C14', 'Schema limits hold in both directions and integers are never cut',
  'A string, bytes or list longer than the limit which the schema sets (field over message over file) is rejected by serialization and deserialization in both formats, and one within the limit is accepted unchanged; fixed-size fields accept exactly their size. An integer which does not fit into the narrower C++ type or bit field chosen by an option is rejected instead of being cut.',
  ['inputs', 'configurations'], 'all option placements, spellings and sizes; all integers', 'tests try a size above and below for a few placements',
  [I+'pb/deserialize.hpp', I+'pb/serialize.hpp', I+'json/deserialize.hpp', I+'json/serialize.hpp', I+'bits.h', S+'ast/ast-options.cpp', S+'dumper/pb/dumper.cpp', S+'dumper/json/dumper.cpp'],
  [('check_size', I+'pb/deserialize.hpp, '+I+'json/deserialize.hpp'), ('check_if_value_fit_in_bits', I+'bits.h'), ('option inheritance', S+'ast/ast-options.cpp')], ['spb::pb::*', 'spb::json::*'],
  'exhaustive enumeration of option placements x spellings x sizes and of 17-bit integers and power-of-two borders, against the option model', 'A narrowed int64 with a 5-byte negative encoding is unspecified.')
P('C15', 'A delimited message is framed exactly, alone or in a stream',
  'Serialization in delimited form writes the varint length of the message followed by exactly its bytes, and delimited deserialization takes exactly one frame: what lies behind the frame is neither needed, read nor interpreted, any sequence of frames is read back message by message, and a frame which is truncated, too long or whose length disagrees with the message is rejected. It holds for buffers and for readers which split their input in any way.',
  ['inputs', 'histories', 'schedules'], 'all sequences of messages, all truncations, all partitions', 'the defect needs two frames, or a cut inside of a length prefix; tests read single frames',
  [I+'pb.hpp', I+'pb/deserialize.hpp', I+'pb/serialize.hpp', I+'io/io.hpp'], [('length prefix', I+'pb.hpp serialize/deserialize options delimited'), ('bounded reader', I+'pb/deserialize.hpp istream')],
  ['spb::pb::serialize', 'spb::pb::deserialize', 'spb::pb::serialize_size'],
  'exhaustive enumeration of frame sequences, truncations, length edits and input partitions on the real code; oracle: concatenation of reference frames',
  'All sequences up to a depth of messages of all fixture schemas, with all cuts of short streams.'+WHO)
P('C16', 'Messages with fixed-capacity types are handled without the heap',
  'When a message uses only types of fixed capacity (options select arrays, fixed strings, fixed vectors), serialization and deserialization in both formats do not allocate from the heap, whatever the value, the input, its order, its size or its malformedness (the exception which reports a failure aside). With heap based types, an operation allocates nothing besides the contents of the message itself and the result container.',
  ['inputs', 'configurations'], 'all values and inputs of all fixed-capacity schemas', 'tests do not count allocations; an allocation may depend on one input length or one key',
  [I+'pb/deserialize.hpp', I+'pb/serialize.hpp', I+'json/deserialize.hpp', I+'json/serialize.hpp', I+'concepts.h', I+'json/base64.h'],
  [('concepts for fixed and resizable containers', I+'concepts.h'), ('no temporary containers', I+'json/deserialize.hpp')], ['spb::pb::*', 'spb::json::*'],
  'exhaustive bounded enumeration of values and inputs with every call of the allocator monitored', 'operator new/malloc are replaced and counted in the process; allocations of exceptions are exempt.'+WHO)
P('C17', 'Operations on different messages never interfere',
  'Serialization and deserialization keep no state outside of their arguments: any interleaving of operations of several threads on different messages, and any operation started from inside of a reader or writer callback of another one, gives the same result, the same bytes and the same failures as running them one after another; an earlier operation, failed or not, has no effect on a later one.',
  ['schedules', 'histories', 'inputs'], 'all interleavings of operations at the callbacks; all histories of operations', 'the tests are single threaded and never nest operations',
  [I+'json/deserialize.hpp', I+'pb/deserialize.hpp', I+'io/buffer-io.hpp', I+'io/function_ref.hpp'], [('all state in stream objects on the stack', I+'json/deserialize.hpp istream, '+I+'pb/deserialize.hpp istream')],
  ['spb::pb::*', 'spb::json::*'],
  'stateless exploration: all interleavings of the callbacks of 2-3 operations (threads under a controlled scheduler, nested re-entrancy, operation histories), under ThreadSanitizer',
  'Schedules switch at I/O callbacks and operation borders, the only points where an operation of the library gives up control; within a segment ThreadSanitizer reports any access to shared data which the callback order does not order.')
P('C18', 'Every graph of messages compiles to the declared types or is refused',
  'For every set of messages, nested or not, and all references among them (required, optional, repeated, map, oneof, by any relative or qualified name), the compiler gives every field the type which the scoping rules of protobuf give (innermost scope first), puts definitions and forward declarations in an order such that the generated code compiles, and refuses with an error what has no meaning or no order in C++. An optional reference of a cycle becomes a pointer.',
  ['inputs', 'configurations'], 'all message graphs, nestings, names and spellings', 'ordering and name resolution depend on the whole graph; tests contain a handful of graphs',
  [S+'ast/ast-messages-order.cpp', S+'ast/ast.h', S+'dumper/header.cpp', S+'ast/ast-types.h'], [('dependency order and forward declarations', S+'ast/ast-messages-order.cpp'), ('type lookup', S+'ast/ast-messages-order.cpp resolve_field')],
  ['spb-protoc', 'generated headers'],
  'exhaustive enumeration of message graphs/nestings/spellings through the real compiler; model: protobuf scoping and existence of an order; the C++ compiler checks the type of every field',
  'All graphs over 2 messages, over 3-4 with subsets of the labels, all nestings of three messages. Cycles which the tool reports instead of solving are accepted either way.')

P('C19', 'JSON names select exactly the declared member',
  'In JSON a member name selects a field (or an enum text a value) if and only if it is, letter by letter after JSON unescaping, one of the names of that field: its name in the schema, its camelCase form, or its json_name. Every other name, similar, prefix, longer, differently cased or with the same hash, is treated as unknown: the member is ignored, the enum text rejected. Serialization writes the one declared name.',
  ['inputs', 'configurations'], 'all names in the input against all declared names', 'names are dispatched by a 32 bit hash and a length limit; tests use the right names and one wrong one',
  [I+'json/deserialize.hpp', S+'dumper/json/dumper.cpp', S+'ast/proto-field.h'],
  [('hash switch plus comparison', S+'dumper/json/dumper.cpp'), ('names into a bounded buffer', I+'json/deserialize.hpp deserialize_key')], ['spb::json::deserialize', 'spb::json::serialize'],
  'exhaustive enumeration of names (all strings up to a length over an alphabet of the declared letters, all hash collisions constructed for each name, all one-letter edits, all pairs) on the real code against the set of declared names',
  'Names up to 5 letters over the alphabet, all same-hash variants.'+WHO)

P('C20', 'Every identifier works in every place of a schema',
  'Any identifier of protobuf can name a field, a message, an enum, an enum value, a oneof, a map or a part of a package: the generated C++ compiles next to other generated code, the C++ name is the identifier (with an underscore appended if it is a C++ keyword, everywhere it is used, in defaults too), and the names and numbers on the wire are the ones of the schema. Names of macros are excepted.',
  ['inputs', 'configurations'], 'all identifiers in all places', 'a clash needs one name in one place; the tests use a handful of keywords as field names',
  [S+'parser/parser.cpp', S+'dumper/header.cpp', S+'dumper/json/dumper.cpp', S+'dumper/pb/dumper.cpp', I+'json/deserialize.hpp', I+'pb/deserialize.hpp'],
  [('C++ keywords', S+'parser/parser.cpp'), ('qualified names in generated code', S+'dumper')], ['spb-protoc', 'generated code'],
  'exhaustive enumeration of identifiers (all C++ keywords, contextual keywords, protobuf keywords, all names the generated code and the library use, all shapes) x places, each compiled and run against the bytes and the JSON the schema prescribes',
  'The set of identifiers is finite by classes; the names std and int32_t in places where they declare a C++ name are known findings.')

P('C21', 'The compiler ends with its output or an error, on any text',
  'For every sequence of bytes as the text of a schema, for every set of files which import one another and every command line, spb-protoc ends: with exit 0 and both output files, or with exit 1, a message on the terminal and no output of that file. It never crashes, hangs or touches memory which is not its own, a write which fails is reported, and the output depends on nothing but the texts: it is the same in every run and process.',
  ['inputs', 'fault_sequences', 'configurations'], 'all texts, import structures, command lines and failing writes', 'the tests contain a few dozen malformed schemas; crashes hide in rare combinations (short files, unterminated tokens, zero bytes)',
  [S+'parser/parser.cpp', S+'parser/char_stream.h', S+'ast/ast-messages-order.cpp', S+'ast/ast-options.cpp', S+'ast/proto-file.h', S+'main.cpp', S+'io/file.cpp'],
  [('parser over a view of the file', S+'parser/char_stream.h'), ('reporting of errors', S+'main.cpp')], ['spb-protoc'],
  'exhaustive enumeration of edits of seed schemas, of all short strings over structural characters and words, of import structures, command lines and write faults; the real main() runs forked, under ASan+UBSan and in other processes',
  'Nesting up to 128.')

P('C22', 'A schema text is compiled to what it means, or refused',
  'Any two schema texts with the same meaning in protobuf (white space, comments before statements, quotes, bases of numbers, order of declarations aside from C++ declaration order, qualification of names) are compiled to the same declarations, and two texts which mean different messages, fields, types, labels, numbers, enum values, packages, defaults or JSON names never to the same code. A valid schema of supported constructs is accepted; a text which is not a protobuf schema is refused, by spb-protoc or at the latest by the C++ compiler, except where its only reading is harmless.',
  ['inputs'], 'all schema texts', 'a misreading needs one combination of tokens, spelling and place; the tests contain single examples of each construct',
  [S+'parser/parser.cpp', S+'parser/char_stream.h', S+'dumper/header.cpp', S+'dumper/pb/dumper.cpp', S+'dumper/json/dumper.cpp', S+'ast'],
  [('numbers, strings, comments and identifiers', S+'parser/parser.cpp'), ('whole-word tokens', S+'parser/char_stream.h consume')], ['spb-protoc', 'generated code'],
  'exhaustive enumeration of token edits, spellings and statement sequences; the parser of Google protobuf gives validity and meaning of each text; bijection between meanings and generated code, canonical text of each schema replayed',
  'Leniencies (labels missing in proto2, unknown options, reserved numbers, ...) and constructs which are refused loudly (groups, services, comments inside of statements) are listed in DESIGN.md.')

P('C23', 'Imports make exactly the visible types available, wherever the files are',
  'In any set of files which import one another, a type name in a file means the type which the scoping rules of protobuf select among the file, its imports and what these import publicly: the member has that C++ type, whatever other types of the same name exist in other scopes or in files imported indirectly, and a name which means nothing visible is refused. The outputs go to the directory of the file relative to the import path, however the command line spells it, and compile together; a file which is not found is an error. Shared imports, in whatever depth, cost no more than their number.',
  ['inputs', 'configurations'], 'all import graphs x packages x spellings x directories', 'tests import one file from the same directory; scope, depth and directory interact',
  [S+'parser/parser.cpp', S+'ast/ast-types.cpp', S+'ast/ast-types.h', S+'ast/ast-messages-order.cpp', S+'main.cpp', S+'dumper/header.cpp'],
  [('visible files and scopes', S+'ast/ast-types.h resolve_from_files'), ('import of a file', S+'parser/parser.cpp parse_top_level_import'), ('output directory', S+'main.cpp')], ['spb-protoc', 'generated headers'],
  'exhaustive enumeration of import graphs (all DAGs over 4 files with import/public import), of packages x decoys x spellings, of directories x command lines; a model of scopes and visibility, validated against protoc on every set, decides; types are asserted by the C++ compiler',
  'Cyclic imports (invalid in protobuf) only have to end. A file next to the importing one is found first, where that differs from protoc it is not checked.')

P('C24', 'A declared default is the initial value of the member',
  'For every field with a default in the schema, the C++ member of a new message has exactly that value: integers of every type up to their limits in decimal, octal and hexadecimal, floating point numbers bit for bit with inf and nan, bool, values of any visible enum, strings and bytes with every escape sequence in either quotes; for optional and required fields, narrowed types and bit fields, and among other options of the field. Every default that protobuf allows compiles, and a field without one starts empty.',
  ['inputs', 'configurations'], 'all types x values x spellings of defaults', 'tests use a few decimal defaults; spelling, sign, type suffix and escape matter in rare combinations',
  [S+'dumper/header.cpp', S+'parser/parser.cpp', S+'ast/ast-options.cpp'], [('literal of a default', S+'dumper/header.cpp dump_default_value'), ('constants', S+'parser/parser.cpp')], ['spb-protoc', 'generated headers'],
  'exhaustive enumeration of types x border values x spellings and all bytes/escapes through the real compiler; the values are compared bit by bit in compiled programs; protoc decides validity',
  'Strings with a zero byte are not covered.')

P('C25', 'Options select exactly the declared C++ types and encodings',
  'A container, pointer or enum type set by an option applies to exactly the fields which it covers: the innermost of field, message and file decides, in whichever notation (comment before or behind, option statement, brackets, aggregate), for fields, oneof members, keys and values of maps and enums; other fields, nested messages and other files keep their types. An int type or bit width is accepted if and only if it is one that holds values of that field, a value which means nothing is refused, and packed and the syntax of the file select the encoding of repeated fields.',
  ['inputs', 'configurations'], 'all options x levels x notations x fields', 'tests use a few combinations; which level wins for which kind of field is a matter of the combination',
  [S+'ast/ast-options.cpp', S+'dumper/header.cpp', S+'dumper/pb/dumper.cpp', S+'parser/parser.cpp'],
  [('options to attributes', S+'ast/ast-options.cpp resolve_options'), ('types of members', S+'dumper/header.cpp convert_to_ctype'), ('bit types', S+'dumper/header.cpp')], ['spb-protoc', 'generated headers'],
  'exhaustive enumeration of options x subsets of levels x notations x kinds of fields, of declared x selected int types x labels x bit widths, of packed x types x syntax; a model of precedence decides, the C++ compiler asserts the type of every member, compiled programs the bytes',
  'A message nested in another one does not take the options of the outer one. Comments of the legacy form (//[[ string.type = ... ]]) are not covered.')

P('C26', 'Numbers in JSON are exact, on every standard library',
  'A number in a JSON document has exactly the value which its decimal digits say: an integer within the range of its field (narrowed or a bit field) is taken digit by digit, one outside of the range or a text which is no number is rejected and never cut or wrapped; a float or double is the nearest one to the digits, small denormal numbers included. Every finite float and double is written as a JSON number which is read back bit for bit. This is so with std::from_chars/to_chars and with the conversion which the library brings for standard libraries without them, in the codec and in spb-protoc, and both give the same results.',
  ['inputs', 'configurations'], 'all number texts x types x places x the two conversions', 'the tests use a few dozen numbers, and only the conversion of the standard library at hand is compiled',
  [I+'to_from_chars.h', I+'json/deserialize.hpp', I+'json/serialize.hpp', S+'parser/parser.cpp'],
  [('conversion of numbers', I+'to_from_chars.h'), ('number tokens', I+'json/deserialize.hpp deserialize_number'), ('written numbers', I+'json/serialize.hpp')], ['spb::json::serialize', 'spb::json::deserialize', 'spb-protoc'],
  'exhaustive enumeration of number texts (all short ones over the number alphabet, all borders with every prefix and suffix, halfway decimals) x types x places and of float bit patterns by exponent and shape of the fraction, on two builds of the real code against exact reference conversions',
  'Numbers up to 200 characters. The other standard library is simulated by hiding the macro __cpp_lib_to_chars; spb-protoc with the own conversion is checked in C22 and C24.')
