"""The registered checks: id -> (deciding technique, what the level means here)."""

CHECKS = {
    "C01": (
        "explicit-state enumeration of value graphs, replayed on the implementation",
        "Every leaf x position, every pair of leaves, all container towers to a depth, counted sizes and strings to a bound; the model (graph spec) projects the expected value, compared by bisimulation.",
    ),
    "C02": (
        "explicit-state enumeration of shared/cyclic graph shapes, replayed on the implementation and on V8",
        "All sequences of 2 (3) object kinds, all pairs of positions, all directed graphs of up to 3 (4) containers; compared by identity-aware bisimulation; the same graphs serialized by V8.",
    ),
    "C03": (
        "exhaustive enumeration of value graphs; every stream replayed on V8 and on a strict wire model",
        "Every stream dumps() produces for the enumerated graphs and encode step lists is read by V8 and by the wire model; both must give the projected graph.",
    ),
    "C04": (
        "exhaustive enumeration of JavaScript value graphs; V8's bytes replayed on the implementation",
        "Enumerated JavaScript values are serialized by V8 (both its own and Node's view encoding) and loaded; the result must be the projected graph.",
    ),
    "C05": (
        "exhaustive enumeration of the derivations of a wire-format model, replayed on the implementation and on V8",
        "All derivations of each graph with up to k deviations from the canonical encoding, for all versions; model validated by V8 reading the same bytes.",
    ),
    "C06": (
        "exhaustive enumeration of byte strings and mutations against a strict wire model",
        "All byte strings over structured alphabets to a length, every truncation, every single byte substitution/insertion/deletion of valid streams, against the model's verdict.",
    ),
    "C07": (
        "exhaustive enumeration of unrepresentable values x positions x step lists and of stream API calls",
        "Every odd value in every position with every step list, every object key, every public write call with boundary arguments from several stream states; outputs judged by the wire model.",
    ),
    "C08": (
        "exhaustive enumeration of features x versions x values and of write calls, judged by the wire model",
        "All feature subsets and versions x all constructs; streams compared with the wire model's constructs used and with the unrestricted stream.",
    ),
    "C09": (
        "explicit-state exploration of operation sequences on the real objects against a reference model validated in V8",
        "Breadth-first over (implementation, model) states from empty and prepared objects and arrays, and every statement sequence to a depth executed in V8, in the model and in the code.",
    ),
    "C10": (
        "explicit-state exploration of operation sequences on the real storage types against a list model",
        "Breadth-first over (implementation, model) states: every sequence of the public list operations to a depth from small initial arrays, dense and sparse.",
    ),
    "C11": (
        "exhaustive enumeration of keys over structured alphabets, replayed on the implementation and on V8",
        "All strings over an alphabet of digit-like characters to a length, ints around every power of two and ten, floats around boundaries; all pairs of a subset; V8 gives the verdict.",
    ),
    "C12": (
        "explicit-state exploration of operation sequences on the real collections against a reference model validated in V8",
        "Breadth-first over (implementation, model) states for all kinds of keys, and every sequence of set/delete/clear to a depth executed in V8, in the model and in the code.",
    ),
    "C13": (
        "exhaustive enumeration of pairs of small (cyclic) object graphs and of bounded-preemption thread schedules, on the real code",
        "All pairs of graphs of up to 4 containers against a path-based model of identity structure; all pairs of a content catalogue and of hashable values (hashes too); all schedules of two comparing threads with up to 2 preemptions at line granularity.",
    ),
    "C14": (
        "explicit-state exploration of resize/write histories on the real buffers against a model validated in V8, and exhaustive enumeration of creations",
        "Breadth-first over buffer contents for every view of 13 types; every history to a depth in V8; every (type, length, offset, item length) creation judged by V8; all readonly combinations.",
    ),
    "C15": (
        "exhaustive enumeration of element patterns, values, accessors and offsets against a bit-level model validated in V8",
        "All 8/16 bit patterns, structured 32/64 bit patterns, all rounding boundaries, every accessor at every offset of every small view; all bytes compared after each write.",
    ),
    "C16": (
        "exhaustive enumeration of error fields, layouts, cause graphs and Python exception links, replayed on the implementation and on V8",
        "All combinations of names, messages, stacks, causes and classes; both wire layouts; all cause graphs of up to 3 values; all cause/context/suppress links of up to 3 exceptions; all group trees to a depth.",
    ),
    "C17": (
        "exhaustive enumeration of acyclic values, cyclic graphs, settings histories and bounded-preemption thread schedules, on the real code",
        "Every leaf in every position, all key pairs, all small arrays and limits evaluated back; all cyclic graphs of up to 3 containers against an unrolling model; all open/close/raise histories of settings against a stack model; all 2-preemption schedules.",
    ),
    "C18": (
        "exhaustive enumeration of call histories, re-entrancy points, input carriers and bounded-preemption thread schedules, on the real code",
        "All pairs and core triples of calls incl. failing ones, against each call alone; every hook a call makes re-entering every other; every carrier type of every stream and truncation; all one-preemption schedules of all pairs of calls (two in the thorough tier).",
    ),
    "C19": (
        "exhaustive enumeration of step sequences and option subsets, on the real code against a model of the composition",
        "All sequences of up to 3 (4) step behaviours (pass, replace, handle, fail, re-enter, ...) x endings x values, the calls each step sees compared with a model; all subsets of the 8 loads() options and their TagReader equivalents x 17 constructs; all registration sequences.",
    ),
    "C20": (
        "exhaustive enumeration of views, encodings and positions, on the real code, against live Node.js in both directions",
        "All 13 kinds x offsets x lengths x places with sharing as Node.js writes them, all view codes, non-minimal lengths and truncations, all kinds x buffers x places as Node.js reads them, all custom host objects of up to 2 (3) parts with references across.",
    ),
    "C21": (
        "exhaustive enumeration of a lattice of instants x time zones and of all flag subsets, on the real code, against exact integer arithmetic and V8",
        "Boundary instants and every offset change 1850-2060 of 14 process zones x both folds x encode and decode zones; boundary doubles read in 5 zones; all 512 JavaScript and 256 Python flag subsets; all sources to length 2 (3) over an alphabet of regexp syntax.",
    ),
    "C22": (
        "exhaustive enumeration of value lattices x stream offsets x encodings, and of all short sequences of writes, on the real code against a model of the primitives bound to V8",
        "Every write_*/read_* pair over all small values and every length-class boundary, at 4 offsets, before 4 trails, in 3 carriers, all truncations, all non-minimal encodings; all sequences of 3 (4) writes; the model's encodings replayed through V8.",
    ),
    "C23": (
        "exhaustive enumeration of small streams with large numbers in every field, of families of growing data and of all short cycles of operations, with an exact count of the work Python does as the observed quantity",
        "47 stream templates x all (pairs, triples of) 18 numbers x 3 option sets within a fixed amount of work and memory; 180 families of growing values and streams x encode/decode/build/compare/iterate/repr, and 3,200 operation cycles, whose work per part mustn't grow with the size (confirmed at a four times larger size; calls and branches are counted, not timed; C-level work by processor time with a threefold margin).",
    ),
    "C24": (
        "exhaustive enumeration of malformed streams, unhandled tags, values and features, and of every exception type raised by every hook in every position; errors are compared with the wire model's field at fault and with the enumerated arguments",
        "all streams of up to 2 (3) bytes of the alphabet, 3 (4) of the medium and 4 (5) of the small alphabet, all truncations, substitutions, deletions and repetitions of a corpus, huge numbers in every field; 27 exception types x 34 hooks x all positions; all views of 13 types x offsets x lengths over small (resizable) buffers; all DataView accesses; missing keys of all kinds.",
    ),
}
NOT_APPLICABLE = {}
NOTES = "All checks run the code in /repo/src directly; node (V8) is the oracle the models are validated against."
