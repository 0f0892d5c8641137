"""The properties (source of properties.jsonl and MANIFEST.json; see mkmanifest.py)."""
J = 'lib/json/reflector.h'
PROPS = []


def P(id, title, statement, over, text, why, files, mechanism, state=(), observe_at=()):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                                   observe_at=list(observe_at), hook_needed=None)))


P('P01', 'JSON round trip preserves every object',
  'Deserializing the JSON text produced by serializing an object yields an equal object without reporting an error, for every supported type, nesting and value (all integers, all finite floating point numbers bit-exactly, all strings including null characters), into a fresh object as well as into one which already holds other data. Only members excluded on purpose (constant members on reading, inaccessible private members, non-owning strings) are exempt, and an empty optional or pointer held directly by another one comes back as empty outer one (JSON has only one null).',
  ['inputs', 'programs'], 'all objects of all (nested) supported types', 'The tests check a handful of objects; equality must hold for all values, in particular extreme numbers, strings with special characters, empty and duplicate elements and pre-filled targets.',
  [J, 'lib/json/serializable.h', 'generator/jsonserializationcodegenerator.cpp'], [('push()/pull() overloads per type category', J), ('generated push()/pull() of records', 'generator/jsonserializationcodegenerator.cpp')],
  observe_at=['toJson()/fromJson()/toJsonDocument()/push()/pull()'])
P('P02', 'Documented mapping from objects to JSON documents',
  'Serializing an object always produces valid JSON with the documented structure: numbers, booleans, strings (or null for null string views), arrays for lists, sets, pairs and tuples, objects for records (all accessible members including those of base classes under their names), maps and variants (index and data), arrays of values per key for multimaps, null or the pointee for pointers and optionals, and underlying integers for enumerations. No name occurs twice within an object produced for a record or map, and numbers and strings denote exactly the original values.',
  ['inputs', 'programs'], 'all objects of all (nested) supported types with finite numbers', 'The tests compare the text of a few documents; the mapping must hold for any value and any nesting of types.',
  [J, 'README.md', 'generator/jsonserializationcodegenerator.cpp'], [('push() overloads', J), ('generated push() of records', 'generator/jsonserializationcodegenerator.cpp')], observe_at=['toJson()', 'push()'])
P('P03', 'JSON documents own all data',
  'After a JSON document has been populated from an object, serializing the document never reads the object again: the output always shows the object as it was when the document was populated, whatever happens to the object in between (modified, cleared, destroyed, its memory reused). This includes all strings, string views and keys of maps.',
  ['histories', 'inputs'], 'all histories of populating, modifying, destroying and serializing, for all types which contain strings', 'The tests serialize documents while the object is unchanged and alive, so a dangling or aliased string goes unnoticed.',
  [J, 'lib/json/serializable.h'], [('strings and keys are copied using the allocator of the document', J)], observe_at=['toJsonDocument()', 'push()'])
P('P04', 'Missing, unknown and mismatching members leave everything else intact',
  'Deserializing a JSON document sets exactly the members which are present with a matching type: absent members and members with a mismatching type keep their previous or default value, unknown members are ignored, the order of members does not matter, and mismatches within nested records, arrays and maps never prevent other parts from being read. Whether errors are collected has no influence on the result.',
  ['inputs'], 'all syntactically valid JSON documents and all target objects', 'The tests use a few documents with single deviations; combinations of deviations at any nesting level are not covered.',
  [J, 'generator/jsonserializationcodegenerator.cpp'], [('pull() of members looks up the member by name', J), ('type checks in pull()', J)], observe_at=['fromJson()', 'pull()'])
P('P05', 'Errors are reported completely, in order and with exact context',
  'Every deviation of a JSON document from what is expected is reported exactly once and in document-processing order, with the kind of error, the expected and the actual JSON type, the record and member being processed and the index within the innermost array being processed; nothing is reported for matching parts. The context is restored when leaving a member or array so later errors (and custom deserialization code) see the right context, and an error is formatted into a text naming exactly these details.',
  ['inputs', 'histories'], 'all JSON documents for all (nested) types', 'The tests check the errors of a few hand-written documents; wrong context shows only for specific nestings and for errors which occur after leaving a nested structure.',
  ['lib/json/errorhandling.h', 'lib/json/errorformatting.h', J, 'generator/jsonserializationcodegenerator.cpp'], [('currentRecord/currentMember/currentIndex are saved and restored', 'lib/json/errorhandling.h'), ('formatJsonDeserializationError()', 'lib/json/errorformatting.h')],
  [('context', 'record, member, index being processed', 'lib/json/errorhandling.h')], ['JsonDeserializationErrors'])
P('P06', 'Errors selected for throwing abort; malformed JSON always throws',
  'With a set of error kinds selected for throwing, deserialization throws exactly when the first error of one of these kinds occurs, with that error as the last one in the list and all prior errors retained; other kinds never throw. JSON text which is syntactically invalid always leads to the parse error being thrown without modifying any target, and no input whatsoever leads to undefined behaviour.',
  ['inputs', 'configurations', 'fault_sequences'], 'all texts and all combinations of error kinds selected for throwing', 'The tests try a few combinations and malformed texts.',
  ['lib/json/errorhandling.h', J], [('throwMaybe()', 'lib/json/errorhandling.h'), ('parseJsonDocFromString()', J)], observe_at=['fromJson()', 'pull()'])
P('P07', 'Numbers are converted exactly or reported',
  'Reading a JSON number into an integer sets it only if the (truncated) number is representable in the target type; otherwise an error is reported and the target keeps its value (a conversion error; a type mismatch if the number is the whole text passed to fromJson()). Floating point targets accept any JSON number and get the nearest representable value; enumerations take integers which are representable in their underlying type and report others. No conversion wraps around or has undefined behaviour.',
  ['inputs'], 'all JSON numbers and all integer, floating point and enumeration types', 'The tests use small numbers; the behaviour at the limits of 8 to 64 bit types is not covered.',
  [J], [('pull() of arithmetic types', J), ('parseJsonDocFromString()', J)], observe_at=['fromJson()', 'pull()'])
P('P08', 'Containers hold exactly the elements of the document',
  'After deserializing an array or object into a list, set, multiset, map or multimap (or a custom type treated as such), the container holds exactly the elements of the document: previous contents are gone, the order of lists and of equal keys is kept, multi-containers keep duplicates, and a duplicate in a set is dropped and reported as unexpected duplicate.',
  ['inputs', 'histories'], 'all documents and all previous contents, for all container types and nestings', 'The tests read into empty containers and check few duplicates.',
  [J, 'lib/traits.h'], [('containers are cleared before reading', J), ('TreatAs... traits', 'lib/traits.h')], observe_at=['fromJson()', 'pull()'])
P('P09', 'Optionals, pointers, tuples and variants are read strictly',
  'JSON null resets optionals and smart pointers and anything else makes them hold a freshly read value; tuples and pairs are only modified if the array has exactly their size; a variant is only modified if the object has index and data and the index denotes one of its alternatives, and then holds exactly that alternative. Every other document leaves the target unchanged and is reported with the kind documented for it.',
  ['inputs'], 'all JSON documents, all alternatives and all previous contents', 'The tests check one or two invalid indices and sizes.',
  [J], [('pull() of optionals, pointers, tuples and variants', J)], observe_at=['fromJson()', 'pull()'])

B = 'lib/binary/reflector.h'
P('P10', 'Binary round trip preserves every object and consumes exactly its bytes',
  'Reading the bytes produced by writing an object yields an equal object, bit-exactly for floating point numbers including infinities, for every supported type, nesting and value, into a fresh object as well as into one which already holds other data. Writing never alters the object and reading consumes exactly the bytes which have been written, no matter what follows in the stream.',
  ['inputs', 'programs'], 'all objects of all (nested) supported types, all previous contents and all trailing data', 'The tests check a handful of objects read into fresh targets from streams which end with the object.',
  [B, 'lib/binary/serializable.h', 'generator/binaryserializationcodegenerator.cpp'], [('read()/write() overloads per type category', B), ('generated readCustomType()/writeCustomType()', 'generator/binaryserializationcodegenerator.cpp')],
  observe_at=['toBinary()/fromBinary()/restoreFromBinary()/BinarySerializer/BinaryDeserializer'])
P('P11', 'Stable binary wire format',
  'The bytes written for an object are determined by its value alone (apart from the identifiers of shared objects): numbers are big-endian with the size of their type, booleans and flags one byte, strings and containers are prefixed with their size as variable-length integer, records consist of the data of their base classes, then the version (if versioned), then the members in the order of declaration, optionals and unique pointers of a presence flag and the value, variants of the index and the value, shared pointers of a mode byte, an identifier and (first occurrence only) the object.',
  ['inputs', 'programs'], 'all objects of all (nested) supported types', 'The tests compare the bytes of one or two objects; a change which is made consistently in reading and writing breaks data already stored without any round-trip test noticing.',
  [B, 'generator/binaryserializationcodegenerator.cpp'], [('write() overloads', B), ('generated writeCustomType()', 'generator/binaryserializationcodegenerator.cpp')], observe_at=['toBinary()', 'BinarySerializer'])
P('P12', 'Shared pointers keep identity and content',
  'Shared pointers which refer to the same object when being written with one serializer refer to the same object after reading with one deserializer, different objects stay different, cycles are restored and null stays null; the object is stored once. This holds for any history of creating, linking, destroying and writing objects while the serializer is used, in particular when the memory of a destroyed object is used again for another one.',
  ['histories', 'inputs'], 'all object graphs and all histories of creating, linking, dropping and writing objects', 'The tests write one small graph; re-use of addresses depends on the allocator and on the history.',
  [B], [('m_pointer of BinarySerializer and BinaryDeserializer', B)], [('m_pointer', 'objects known to the (de)serializer', B)], ['BinarySerializer', 'BinaryDeserializer'])
P('P13', 'Several objects on one stream are independent of each other',
  'Any sequence of objects of any types and versions written to one stream, with one serializer or with one per object, is read back in the same order with matching positions; only the identity of shared pointers is carried from one object to the next (when one (de)serializer is used). A version used for one object never affects the following ones.',
  ['histories', 'inputs'], 'all sequences of objects, types, versions and (de)serializer usages', 'The tests write single objects.',
  [B, 'lib/binary/serializable.h'], [('m_version is restored', B), ('m_pointer', B)], [('m_version', 'version of the outer scope', B), ('m_pointer', 'known objects', B)], ['BinarySerializer', 'BinaryDeserializer'])
P('P14', 'Malformed binary data is rejected or read as defined, never undefined behaviour',
  'For every sequence of bytes, reading either yields the object denoted by these bytes or throws: a premature end leads to an I/O exception (never to an object), an invalid variant index, an unknown shared object or one of another type and an invalid size prefix to a ConversionException, an unsupported version to BinaryVersionNotSupported and a size which exceeds the memory to an allocation failure. A complete object is never affected by data following it. No input leads to undefined behaviour. (Enumerations without fixed underlying type are exempt.)',
  ['inputs', 'fault_sequences'], 'all sequences of bytes for all (nested) types', 'The tests try a few malformed inputs.',
  [B], [('readVariantValueByRuntimeIndex()', B), ('read() of shared pointers', B), ('assertVersion()', 'lib/versioning.h')], observe_at=['BinaryDeserializer', 'fromBinary()'])
P('P15', 'Stream failures at any point are reported',
  'If the output stream fails after any number of bytes, exactly these bytes have been written, the failure is visible as exception (if enabled or thrown by the buffer) or in the state of the stream and the object written is unaltered. If the input stream fails or ends after any number of bytes before the object is complete, reading throws and the target can still be used and destroyed.',
  ['fault_sequences', 'crash_points', 'inputs'], 'all points of failure for all objects', 'The tests never make a stream fail.',
  [B, 'lib/binary/serializable.h'], [('write()/read()', B)], observe_at=['BinarySerializer', 'BinaryDeserializer'])
P('P16', 'Version markers select exactly the members of a version',
  'Writing a versioned record at a version stores that version (the highest one if none or a higher one is specified) and exactly the members which are part of it according to the markers as_of_version and until_version; reading takes exactly these members, leaves all others at their previous value and returns the version. An unversioned record nested in a versioned one, also within containers, optionals, pointers, pairs and variants, is treated according to the version of the enclosing record; a versioned one according to its own.',
  ['inputs', 'programs', 'configurations'], 'all records with markers, all nestings, all values and all versions', 'The tests use one record and few versions.',
  [B, 'lib/versioning.h', 'generator/binaryserializationcodegenerator.cpp', 'generator/codegenerator.cpp'], [('generated conditions on the version', 'generator/binaryserializationcodegenerator.cpp'), ('Versioning::applyDefault()', 'lib/versioning.h'), ('m_version', B)], observe_at=['toBinary()', 'BinarySerializer', 'BinaryDeserializer'])
P('P17', 'Data of older versions stays readable, data of newer versions is rejected',
  'Data written by a program is read by every program which supports the version of the data (members unknown at that version keep their value), whichever of the two is newer. Data with a version higher than supported is rejected by BinaryVersionNotSupported stating the version found, the highest one supported and the qualified name of the record, for the outermost as well as for every nested record and base class. Written data is always readable by the program which has written it.',
  ['programs', 'configurations', 'histories'], 'all pairs of program versions, all versions of the data and all nestings', 'The tests check one unsupported version of one record.',
  ['lib/versioning.h', B, 'generator/binaryserializationcodegenerator.cpp'], [('Versioning::assertVersion()', 'lib/versioning.h'), ('generated code reading the version', 'generator/binaryserializationcodegenerator.cpp')], observe_at=['fromBinary()', 'BinaryDeserializer', 'BinaryVersionNotSupported'])

G = 'generator/codegenerator.cpp'
GJ, GB = 'generator/jsonserializationcodegenerator.cpp', 'generator/binaryserializationcodegenerator.cpp'
P('P18', 'The generator covers exactly the classes made up for reflection',
  'For every translation unit, the code generator defines the (de)serialization functions of a format for exactly the complete classes of the main file which directly inherit from the Serializable template of this format or are listed via the command line, plus all complete classes (of any file) adapted by the macro within the main file. Classes which are only declared, merely included or which use equally named templates or functions of other namespaces get no code, and the presence of further classes and the kind of notation (namespaces, nesting, macros, aliases, order) never matter. Functions for reading are defined only for classes with a default constructor; the output always compiles.',
  ['programs', 'configurations'], 'all translation units and all lists of classes', 'The tests run the generator on one header and compare the output with a recorded text.',
  [G, GJ, GB, 'generator/codefactory.cpp', 'generator/serializationcodegenerator.cpp'], [('isOnlyIncluded(), inheritsFromInstantiationOf()', G), ('findRelevantClasses(), computeRelevantClass()', 'generator/serializationcodegenerator.cpp'), ('RecursiveASTVisitor passing all classes', 'generator/visitor.cpp')], observe_at=['reflective_rapidjson_generator --input-file --output-file'])
P('P19', 'Generated code (de)serializes each member exactly once',
  'For every class hierarchy, generated code writes and reads the accessible non-static members of the class and of all its direct and indirect base classes which are serializable in this format exactly once, base classes first and members in the order of declaration. Private and protected members are included exactly if the helper function in question is a friend of the class; constant members are written to JSON but never read and not part of binary data. Base classes which are not serializable contribute nothing themselves but do not hide serializable bases of theirs.',
  ['programs'], 'all class hierarchies with all kinds of members', 'The tests cover two small hierarchies.',
  [GJ, GB, 'generator/serializationcodegenerator.cpp'], [('findRelevantBaseClasses()', 'generator/serializationcodegenerator.cpp'), ('friends, access and constness of fields', GJ), ('conditions and order of fields', GB)], observe_at=['push()/pull()', 'writeCustomType()/readCustomType()'])
H, HB = 'lib/json/reflector-boosthana.h', 'lib/binary/reflector-boosthana.h'
P('P20', 'Reflection via Boost.Hana follows the same mapping and wire format',
  'Records made up for reflection via Boost.Hana instead of the code generator have the same JSON representation and binary wire format as with generated code: every member which is listed is written and read under its name and in its order, missing, unknown and mismatching members are treated and reported in the same way, and objects survive the round trip through both formats. This holds for records nested in containers, pointers, optionals, tuples and variants as well.',
  ['inputs', 'programs'], 'all records which can be described via Boost.Hana, all objects, documents and bytes', 'The tests use one record; generated code and Boost.Hana code are never compared.',
  [H, HB, 'lib/json/reflector.h', 'lib/binary/reflector.h'], [('push()/pull() based on hana::keys', H), ('readCustomType()/writeCustomType() based on hana::keys', HB)], observe_at=['toJson()/fromJson()', 'toBinary()/fromBinary()'])
P('P21', 'The generator reports success only if the complete code has been written',
  'For every combination of arguments and inputs, the generator exits with success if and only if the arguments are valid, the input compiles (apart from semantic errors when being error-resilient) and all code has been stored; otherwise it exits with failure and an error message. After success the output consists of exactly the code of the requested formats in the requested order (JSON by default), with the requested visibility attributes, no matter whether it goes to a file or stdout, what the file contained before, which other formats are generated and how the Clang options are divided into arguments. Nothing but generated code is ever written to stdout.',
  ['inputs', 'configurations', 'fault_sequences', 'histories'], 'all calls of the generator, all points at which the storage is exhausted', 'The tests call the code factory directly and never the tool; failing output is not tested at all.',
  ['generator/main.cpp', 'generator/codefactory.cpp', 'generator/consumer.cpp', GJ, GB], [('main()', 'generator/main.cpp'), ('DiagConsumer::HandleDiagnostic()', 'generator/consumer.cpp'), ('visibility attributes', GJ)], observe_at=['reflective_rapidjson_generator'])
C = 'lib/json/reflector-chronoutilities.h'
P('P22', 'Dates and time spans keep their value and have an ISO representation',
  'A DateTime is represented in JSON by the ISO-8601 text denoting exactly this point in time of the proleptic Gregorian calendar, a TimeSpan by the text of its hours, minutes, seconds and fractions; both are binary numbers of ticks. Reading a text sets the value to the denoted point in time (including a time zone offset) or span with a precision of at least one tick, texts which do not denote one are reported as conversion error leaving the value unchanged, and other JSON types as mismatch. Values survive the round trip (dates before year 10000, spans of less than 1000000 hours).',
  ['inputs'], 'all points in time, all time spans and all texts', 'The tests use one date and one time span; neither calendar rules nor malformed texts are covered.',
  [C, 'lib/binary/reflector-chronoutilities.h', 'lib/json/errorhandling.h'], [('push()/pull() of DateTime and TimeSpan', C), ('readCustomType()/writeCustomType() of DateTime and TimeSpan', 'lib/binary/reflector-chronoutilities.h')], observe_at=['toJson()/fromJson()', 'toBinary()/fromBinary()'])
P('P23', 'Operations running at the same time do not influence each other',
  'Serializing and deserializing different objects via different documents, streams, (de)serializers and lists of errors yields for each operation exactly the result, errors, error contexts, exceptions and bytes it yields when it is the only one. This holds however the operations are interleaved: within different threads as well as when custom (de)serialization code invoked by one operation (de)serializes other objects itself, also if one of the operations fails. Serializing one object and reading one document from several threads at the same time is free of data races.',
  ['schedules', 'inputs'], 'all interleavings of operations on all objects, documents and bytes', 'The tests run one operation after another within one thread.',
  [J, 'lib/json/errorhandling.h', B, 'lib/json/serializable.h', 'lib/binary/serializable.h'], [('error context saved and restored by pull()', J), ('JsonDeserializationErrors passed through all pull() calls', 'lib/json/errorhandling.h'), ('maps of pointers per (de)serializer', B), ('functions without state shared between calls', J)],
  observe_at=['toJson()/fromJson()/push()/pull()', 'BinarySerializer/BinaryDeserializer'])
