import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="src/v8serialize/"
p("C01","Round trip preserves every value exactly",
"Whatever supported Python value is serialized with dumps(), loads() of the result is the documented JavaScript counterpart of that value, with every leaf, key, order, hole, length, flag and numeric distinction (integers vs floats, with integers that need a JavaScript double read back as an equal float; sign of zero, NaN, infinities, bool vs number, bigint, null vs undefined vs hole) intact. Equal-looking but different values occurring in the same graph never replace one another, and serializing the decoded value again yields a stream that decodes to the same value.",
["inputs"],"all value graphs (leaf kinds x container kinds x nesting x position) that the default encode steps accept, each serialized and deserialized with default options",
"Hypothesis samples a few hundred random trees per run and compares with Python ==, which cannot see 0.0/-0.0, 1/True/1.0 or hole/length differences; combinations of two particular values in one graph are essentially never generated.",
[S+"encode.py",S+"decode.py",S+"jstypes/"],[("TagWriter",S+"encode.py"),("TagReader",S+"decode.py"),("value deduplication",S+"encode.py DefaultEncodeContext.deduplicate")])
p("C02","Shared references and cycles survive the round trip",
"If the same object occurs several times in the serialized graph (through any container, in any position, including itself), the decoded graph has exactly one object in all those places, and distinct mutable objects stay distinct. This holds for every kind of value that JavaScript treats as an object and regardless of which other objects precede it in the stream; an object reference never resolves to a different object than the one written.",
["inputs"],"all object graphs: node kinds x edge placements (including back edges and self loops) x sharing patterns, in both the Python->bytes->Python direction and when bytes come from V8",
"Tests check a few hand-written cyclic shapes per container; reference ids are positional, so an off-by-one by one object kind only shows when another shared object follows it, a combination tests do not enumerate.",
[S+"_references.py",S+"encode.py",S+"decode.py"],[("SerializedObjectLog",S+"_references.py"),("serialize_object_references",S+"encode.py"),("read_object_reference",S+"decode.py")],
[("object log","serialized id -> object, python id -> serialized id",S+"_references.py")])
p("C03","Everything dumps() produces is readable by V8 with the same meaning",
"Every byte stream dumps() returns is a well-formed V8 serialization-format (v15) stream that V8's own deserializer accepts, and the JavaScript value V8 reads from it is the one the Python value stands for: same types, contents, property order, holes, identity structure, error fields, regexp flags, dates and buffer contents. This holds for the default encoder and for the bundled encode steps and features, restricted to features the reading V8 supports.",
["inputs","configurations"],"all encodable value graphs x serialization features / bundled encode steps; reader = V8 (node)",
"The V8 interop tests need a deno/node echo server that is not available in CI by default (they are skipped here), and sample random values only.",
[S+"encode.py",S+"jstypes/",S+"extensions.py"],[("WritableTagStream",S+"encode.py")])
p("C04","Everything V8 serializes loads with the same meaning",
"For every value that V8 can serialize with the constructs this library supports, loads() of V8's bytes returns the documented Python counterpart: same structure, contents, property order, holes and lengths, number/bigint distinction, error name/message/stack/cause, regexp source and flags, buffers and views with their offsets and lengths, and identity structure. This includes Node.js's host-object encoding of typed arrays and Buffers.",
["inputs"],"all JavaScript values built from supported constructs, serialized by V8 (node v8.serialize and v8.Serializer/DefaultSerializer)",
"The repository's decode tests contain about ten captured base64 samples; interop tests with a live V8 are skipped offline.",
[S+"decode.py",S+"jstypes/",S+"extensions.py"],[("ReadableTagStream",S+"decode.py"),("TagReader",S+"decode.py"),("NodeJsArrayBufferViewHostObjectHandler",S+"extensions.py")])
p("C05","Every valid encoding of a value decodes to that value",
"The format allows many byte encodings of one value (format versions 13 to 15, one-byte/two-byte/UTF-8 strings, int32/uint32/double numbers, padding before any tag, dense or sparse arrays, old and new error field order, references or copies, plain or wrapped primitives). loads() returns the same value for each of them: the one the format defines, consuming exactly the bytes of that value.",
["inputs"],"all derivations of a reference grammar of the wire format up to bounded size, for versions 13, 14 and 15",
"Tests only feed the decoder the one spelling the library's own encoder (or one V8 version) produces, plus a few literals.",
[S+"decode.py",S+"constants.py"],[("ReadableTagStream",S+"decode.py"),("tag constraints",S+"constants.py")])
p("C06","Malformed input is always rejected, cleanly",
"Given any bytes whatsoever, loads() terminates and either returns a value or raises DecodeV8SerializeError (or a subclass); no other exception type escapes. Data that is truncated, has an unsupported version, an unknown tag, a wrong count or length, an out-of-range reference, an invalid key, or a view outside its buffer is rejected rather than decoded to something.",
["inputs"],"all byte strings over a tag-covering alphabet up to a bounded length, every truncation and every single-byte substitution of a corpus of valid streams (nesting below the interpreter's recursion limit)",
"Fuzz-style tests in the repository cover no malformed data beyond a handful of literals; robustness is a for-all statement over bytes.",
[S+"decode.py",S+"_references.py",S+"extensions.py",S+"jstypes/jsbuffers.py"],[("ensure_capacity/throw",S+"decode.py"),("count checks",S+"decode.py")],None,["exception type raised by loads()/Decoder.decodes()"])
p("C07","Unrepresentable values are refused, never written as a broken stream",
"For any Python value at any depth, dumps() and Encoder.encode() either return a stream that decodes, or raise an EncodeV8SerializeError subclass or another V8SerializeError (UnhandledValueEncodeV8SerializeError carrying the offending value when no encode step handles it). Values not valid as JavaScript property keys, out-of-range numbers, ids, lengths and misplaced tags written through the public stream API are refused before a malformed stream results.",
["inputs","programs"],"all positions (top level, element, key, property, map key/value, set member, error cause, view) x unsupported or out-of-range values, and all short sequences of public WritableTagStream calls",
"Tests check one unsupported object at top level and a couple of out-of-range ints.",
[S+"encode.py",S+"constants.py",S+"_values.py"],[("TagConstraint on keys",S+"encode.py constrain_tags"),("range checks in write_*",S+"encode.py"),("UnhandledValueEncodeV8SerializeError",S+"encode.py")])
p("C08","Feature and version settings gate exactly what is written",
"For every combination of SerializationFeatures (given directly, by v8_version, or both), the encoder writes a construct only when the feature it needs is enabled, and otherwise falls back or raises as documented (resizable buffers become plain buffers, self-referencing error causes and Float16Array are refused). A v8_version enables exactly the features first released at or before it, more features never change the output of values that do not need them, and versions older than the baseline are rejected.",
["configurations","inputs"],"all 16 feature subsets x version strings around every feature boundary x values that do and do not need each feature",
"Tests check each feature on and off in isolation with one value and compare two version numbers.",
[S+"constants.py",S+"encode.py",S+"_versions.py"],[("SerializationFeature.supported_by",S+"constants.py"),("feature tests in write_*",S+"encode.py"),("parse_lenient_version",S+"_versions.py")])
p("C09","JSObject and JSArray behave like JavaScript objects and arrays",
"After any sequence of mutations through the mapping interface, a JSObject or JSArray contains exactly the properties the same JavaScript statements would leave: integer keys (however spelled) first in ascending order then names in creation order, deletions leave holes, and a JSArray's length is the one JavaScript reports. Reads, membership, len(), iteration, pop/setdefault/update and the .array/.properties views all agree, and missing keys raise KeyError.",
["histories"],"all operation sequences up to a bounded depth over a key alphabet that covers int, numeric string, float, name, and dense/sparse boundary indexes",
"Unit tests run fixed scripts of a few operations; the dense-to-sparse switch and its interaction with deletions and holes depend on operation history.",
[S+"jstypes/jsobject.py",S+"jstypes/jsarray.py",S+"jstypes/jsarrayproperties.py"],[("_ensure_array_capacity",S+"jstypes/jsobject.py"),("normalise_property_key",S+"jstypes/_normalise_property_key.py")],
[("array","dense or sparse element store",S+"jstypes/jsobject.py"),("_properties","name properties",S+"jstypes/jsobject.py")])
p("C10","Dense and sparse array storage are the same list with holes",
"Under any sequence of list operations (get, set, delete, insert, append, extend, pop, reverse, remove, resize, clear, iteration in either order, elements views), the dense and the sparse array-properties types give the same results, exceptions and final contents as a plain Python list in which a hole is an ordinary value. elements_used, element_indexes, elements() and len() always describe that list.",
["histories"],"all operation sequences up to a bounded depth from dense and sparse initial states, with negative, in-range, boundary and out-of-range indexes",
"The existing stateful comparison samples random histories; key-cache invalidation in the sparse store breaks only for particular orders of set/delete/insert/resize.",
[S+"jstypes/jsarrayproperties.py",S+"_typing.py"],[("_sorted_keys cache",S+"jstypes/jsarrayproperties.py"),("_elements_used counter",S+"jstypes/jsarrayproperties.py")],
[("_sorted_keys","cached ascending index list or None",S+"jstypes/jsarrayproperties.py"),("_max_index","length - 1",S+"jstypes/jsarrayproperties.py")])
p("C11","Property keys are canonicalised exactly as JavaScript does",
"Two int, float or string keys denote the same JSObject/JSArray property if and only if JavaScript's ToPropertyKey makes them the same property, and a key is stored as an array index exactly when JavaScript treats it as one (canonical decimal 0..2**32-2). Every other number becomes the string JavaScript's Number-to-String conversion gives, and canonicalisation is idempotent.",
["inputs"],"all short strings over the characters that matter, integers around every power-of-two boundary, and floats around every formatting boundary (compared with V8)",
"Tests check about a dozen literals; the claim is an equivalence over all keys.",
[S+"jstypes/_normalise_property_key.py",S+"jstypes/jsobject.py"],[("normalise_property_key",S+"jstypes/_normalise_property_key.py")])
p("C12","JSMap and JSSet follow JavaScript's same-value-zero and order rules",
"After any sequence of operations a JSMap/JSSet holds the entries the same JavaScript Map/Set would, in the same order: primitives match by value with NaN equal to NaN, 0 equal to -0 and 1 distinct from true, objects match by identity, deleting and re-adding moves an entry to the end, updating keeps its place. Set algebra, comparison with dict/set, get/pop/setdefault/discard/remove and iteration agree with that content.",
["histories"],"all operation sequences up to a bounded depth over a key alphabet of confusable primitives and equal-but-distinct objects",
"Tests exercise individual methods with few keys; identity-versus-equality confusions need particular key pairs and orders.",
[S+"jstypes/jsmap.py",S+"jstypes/jsset.py",S+"jstypes/_equality.py"],[("same_value_zero",S+"jstypes/_equality.py")])
p("C13","Equality of JS types is sound, total and terminates",
"Comparing any two values made of the JS types terminates without error even when they contain themselves, is reflexive and symmetric, agrees between == and !=, and says equal exactly when both sides have the same type-specific content and, for cyclic values, the same identity structure; equal values that can be hashed have equal hashes, and values that can change cannot be hashed. Comparisons running in several threads at the same time, or run after one that raised an error, do not affect one another's answers.",
["inputs","schedules"],"all pairs of bounded (possibly cyclic) graphs of JSObject/JSArray/JSMap/JSSet/JSError, and all interleavings of two comparing threads up to a preemption bound",
"Tests compare a few hand-built cycles in one thread; wrong answers need two differently wired cyclic graphs or an interleaving inside a comparison.",
[S+"_recursive_eq.py",S+"jstypes/jsobject.py",S+"jstypes/jsmap.py",S+"jstypes/jsset.py",S+"jstypes/jserror.py",S+"jstypes/jsarrayproperties.py"],[("recursive_eq",S+"_recursive_eq.py")],
[("running comparisons","objects whose comparison is in progress",S+"_recursive_eq.py")])
p("C14","Buffers and views track resizing like JavaScript's",
"After any sequence of buffer resizes and writes, every view reports the byte offset, length, in-range and length-tracking state JavaScript defines for it, and exposes exactly the bytes of its range: fixed views out of range are empty and come back when the buffer grows, tracking views follow the buffer to whole items, regrown bytes are zero. Views and buffers sharing storage see each other's writes, creation enforces JavaScript's alignment and bounds rules, and readonly is never circumvented.",
["histories"],"all sequences of resize/write operations up to a bounded depth x all (view type, offset, length) combinations over small buffers",
"Tests check single resizes for a few shapes; out-of-range and back-in-range transitions are histories.",
[S+"jstypes/jsbuffers.py"],[("JSArrayBuffer.resize",S+"jstypes/jsbuffers.py"),("JSArrayBufferView",S+"jstypes/jsbuffers.py"),("create_view",S+"jstypes/jsbuffers.py")],
[("_data","backing bytes",S+"jstypes/jsbuffers.py")])
p("C15","Typed elements read and write with JavaScript's binary layout",
"For each typed array and DataView accessor, reading yields the number whose little-endian (or, for DataView by default, big-endian) two's-complement or IEEE-754 representation is stored at that element, and writing stores exactly that representation and touches no other byte. Accesses outside the view raise and change nothing.",
["inputs"],"all byte patterns for 8- and 16-bit types, all boundary patterns for wider types, every offset of small views, both endiannesses",
"Tests check a few values per type; a wrong width, sign or endianness for one accessor at one offset escapes them.",
[S+"jstypes/jsbuffers.py"],[("DataFormat.resolve",S+"jstypes/jsbuffers.py"),("DataViewBuffer",S+"jstypes/jsbuffers.py"),("BackportJSFloat16Array",S+"jstypes/jsbuffers.py")])
p("C16","Errors and Python exceptions keep name, message, stack and cause",
"Every JavaScript error representation round-trips its name (or Error when the name is not one JavaScript serializes), message, stack and arbitrary cause, including cause chains that share objects or are cyclic when that feature is enabled. A Python exception serializes as an Error whose message and stack describe that exception and whose cause chain mirrors __cause__, for any chain, group or traceback shape, and both historical layouts of serialized errors decode to the same error.",
["inputs"],"all combinations of name x message x stack x cause presence and kind, cause graphs up to a bounded size, both field orders, all exception chain/group shapes up to a bounded size",
"Tests check a few literal errors; optional fields interact positionally in the stream and with object references.",
[S+"encode.py",S+"decode.py",S+"jstypes/jserror.py",S+"jstypes/_v8traceback.py",S+"constants.py"],[("write_js_error",S+"encode.py"),("read_js_error",S+"decode.py"),("format_exception_for_v8",S+"jstypes/_v8traceback.py")])
p("C17","repr() of JS types is faithful, terminates and has no side effects",
"repr() of any value made of JS types terminates, including for values that contain themselves, and for acyclic values within the configured size limits evaluating the text with the library's names (enum members read as such) gives back an equal value of the same types. Repr settings apply exactly within the context that set them: nested or failing uses restore the previous settings, contexts exited out of order leave the settings that are in force and warn (unless force_restore is set), and values rendered concurrently in several threads come out as they would alone.",
["inputs","histories","schedules"],"all bounded value graphs, all properly nested or failing enter/exit sequences of repr settings, and interleavings of two threads using different settings",
"Doctests show a handful of reprs; settings leakage and recursion guards depend on history and on failure points.",
[S+"jstypes/_repr.py",S+"jstypes/jsbuffers.py",S+"jstypes/jsregexp.py",S+"jstypes/jserror.py"],[("JSRepr",S+"jstypes/_repr.py"),("js_repr_settings",S+"jstypes/_repr.py")],
[("active repr settings","context-local settings in use",S+"jstypes/_repr.py")])
p("C18","Calls are independent: reuse, failure, threads, and inputs",
"Each encode or decode gives the result it would give alone, whatever ran before it or runs concurrently with it: Encoder, Decoder, TagWriter, TagReader and the default step sequences can be reused, called re-entrantly from steps or constructors, and shared between threads, also after a call failed. Serializing never modifies its input, decoding never modifies or keeps a live view of its input buffer, and the type of bytes-like object passed in makes no difference to the result.",
["schedules","histories","inputs"],"all interleavings of two threads (up to a preemption bound) sharing encoder/decoder objects, all short histories of succeeding/failing calls on shared objects, all supported input buffer types",
"Tests run one call at a time on fresh objects, in one thread, nearly always with bytes.",
[S+"encode.py",S+"decode.py",S+"_decorators.py",S+"_pycompat/typing.py"],[("per-call contexts",S+"encode.py, "+S+"decode.py"),("get_buffer/is_readable_binary",S+"_pycompat/typing.py, "+S+"decode.py")])
p("C19","Encode and decode steps compose as documented",
"Steps run in the order given for every value (or tag) at every depth, each seeing exactly what its predecessor passed to next(); a step that does not call next() fully decides the outcome, and when none handles a value the documented unhandled error is raised. loads() keyword options behave exactly like the corresponding TagReader options, each option affects only the constructs it names, and conflicting options are refused.",
["configurations","programs"],"all step sequences up to a bounded length over a set of step behaviours (pass, replace, handle, fail) x value shapes; all subsets of loads()/TagReader options x constructs",
"Tests use one custom step or one option at a time.",
[S+"encode.py",S+"decode.py"],[("DefaultEncodeContext",S+"encode.py"),("DefaultDecodeContext",S+"decode.py"),("TagReader/TagReaderRegistry",S+"decode.py"),("loads",S+"decode.py")])
p("C20","Host objects and Node.js buffers are handled exactly",
"Node.js host-object views of every kind decode to the matching typed array or DataView with exactly the view's bytes, leave the stream positioned right after them, and take part in object references like any other object; encoding views as Node.js host objects produces what Node.js reads back as the same view of the same bytes. Custom host object serializers and deserializers get the value or stream at the right position, and host objects without a deserializer are refused.",
["inputs"],"all view kinds x lengths x positions among other values x sharing patterns, in both directions, against Node.js",
"Tests check a few captured Node.js samples, always alone in the stream.",
[S+"extensions.py",S+"encode.py",S+"decode.py"],[("NodeJsArrayBufferViewHostObjectHandler",S+"extensions.py"),("NodeBufferFormat",S+"extensions.py"),("read_host_object/write_host_object",S+"decode.py, "+S+"encode.py")])
p("C21","Dates and regular expressions translate without loss",
"A datetime denotes the same instant after any trip through the format (to JavaScript's millisecond precision or better), in whatever time zone it or the reader uses, and dates JavaScript can hold but Python cannot are refused with a decode error. A regular expression keeps its source and exactly its set of flags; conversion to and from Python patterns succeeds precisely when every flag has an equivalent and then maps each flag to its equivalent.",
["inputs","configurations"],"all instants in a boundary lattice (epoch, sign changes, DST folds and gaps, min/max, sub-millisecond) x time zones; all JS flag subsets and all Python flag subsets",
"Tests sample datetimes in one process time zone and check a few flags.",
[S+"encode.py",S+"decode.py",S+"jstypes/jsregexp.py",S+"constants.py"],[("write_js_date/read_js_date",S+"encode.py, "+S+"decode.py"),("JSRegExpFlag",S+"constants.py")])
p("C22","Tag-stream primitives are exact inverses with exact extents",
"For every public write_* primitive of the stream classes, the matching read_* primitive returns the written value and leaves the position exactly after its last byte, for every value in its documented domain, at every stream alignment; values outside the domain are refused without a partial write that decodes. Readers agree with V8's definition of varint, zigzag, double, bigint and the string encodings on every encoding, including non-minimal ones.",
["inputs"],"all values in boundary lattices per primitive (every varint length boundary, every bit-length boundary for bigint, every string width class) x stream offsets x trailing data",
"Tests sample random ints and strings, starting at offset 0; boundaries of each length class and alignment are rarely hit.",
[S+"encode.py",S+"decode.py"],[("WritableTagStream",S+"encode.py"),("ReadableTagStream",S+"decode.py")])
p("C23","Work and memory stay proportionate to the data",
"Decoding, encoding, comparing and building values takes work and memory proportionate to the size of the data involved: doubling the data about doubles the work, whatever constructs, key orders, sharing and (bounded) nesting it uses. A call that is over keeps no memory. No small input, valid or malformed, makes the library loop or allocate in proportion to a number stored in it (a length, count, index, offset, id or date) rather than to the input's own size.",
["inputs","histories"],"all fields of every construct x all boundary numbers (and pairs and triples of them) in small streams; every construct, key order and stride at growing sizes; all cycles of up to 3 operations on JSObject, JSArray, JSMap and JSSet at growing lengths",
"Tests use small data and don't measure anything: an accidental quadratic loop or an allocation of a stored length passes them all, but is a denial of service for whoever decodes untrusted data.",
[S+"decode.py",S+"encode.py",S+"jstypes/jsarrayproperties.py",S+"jstypes/jsobject.py",S+"jstypes/jsmap.py",S+"jstypes/jsset.py",S+"_references.py"],[("sparse array storage",S+"jstypes/jsarrayproperties.py"),("ensure_capacity",S+"decode.py")])
p("C24","Failures say what failed, and pass through unchanged",
"When a call fails, the error identifies what failed: a decode error has the very data given and a position within the field at fault, unhandled tags and values are the ones no step handled, missing features are ones that are not enabled and whose enabling gets past the failure, cyclic references name the object and its id, buffer errors carry the numbers of the failing call and the buffer, missing keys are the keys asked for. Every error can be printed and shows its message and fields, and is an instance of the documented base classes. An exception raised by user code the library calls (steps, types, builders, host object handlers, iterated containers) arrives unchanged, at any depth.",
["inputs","faults","configurations"],"all truncations, substitutions, deletions and repetitions of a corpus of streams, all short streams over alphabets; every tag, value and feature left unhandled in every position; every kind of exception raised by every hook in every position; all view creations and accesses over small buffers; missing keys of all kinds",
"Tests check the fields of a handful of errors; where an error is reported depends on every reading path, and whether a hook's exception survives depends on each try statement it passes, for each exception type.",
[S+"_errors.py",S+"decode.py",S+"encode.py",S+"_references.py",S+"jstypes/jsbuffers.py",S+"jstypes/jsobject.py"],[("ReadableTagStream.throw",S+"decode.py"),("error classes",S+"_errors.py"),("SerializedObjectLog",S+"_references.py")])
open(__file__.rsplit('/',2)[0]+'/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import re
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    print(x['id'],len(re.findall(r'[.;]\s|\.$',x['statement'])))
