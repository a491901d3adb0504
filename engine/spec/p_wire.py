J = "crates/vertigo/src/driver_module/js_value/"
A = "crates/vertigo/src/driver_module/api/"
PROPS = [
dict(id="W01", title="The announced size of a value is exactly what is written for it",
 statement="For every value sent to JavaScript, the size computed beforehand equals the number of bytes written, for each kind of value including nested lists, objects, JSON and text of any length; the memory block has that size, and every count or length fits the field that carries it.",
 over=["inputs"], q="every value of every kind, nested to any depth",
 why="A size that is off by one for one kind of value overflows or leaves garbage only for values that contain it.",
 files=[J+"js_value_struct.rs", J+"js_json_struct.rs"], mech=[("JsValue", J+"js_value_struct.rs"), ("JsJson", J+"js_json_struct.rs")],
 decide="Two symbolic sums per enum variant from the MIR, the addends of get_size (loop accumulators taken as recurrences) and the byte widths of the writer's events, compared as multisets; casts of lengths to narrower fields are reported."),
dict(id="W02", title="Decoding reads back exactly what encoding writes",
 statement="Every value, encoded and then decoded, is the same value of the same kind: tags are distinct, every part is read with the width, order and count it was written with, every element and object entry is kept. An unknown tag or invalid text is an error, and an error inside a nested value is passed on.",
 over=["inputs"], q="every value, nested to any depth, and every unknown tag",
 why="The decoder and the encoder are separate code; the kinds of value tests happen to send do not include all of them.",
 files=[J+"js_value_struct.rs", J+"js_json_struct.rs"], mech=[("JsValue", J+"js_value_struct.rs"), ("JsJson", J+"js_json_struct.rs")],
 decide="The byte grammar of each variant is extracted from the writer's MIR (tag, fields, lengths, repeated part) and unified with the read events of the decoder path for that tag; the decoded term must carry what was read in the place it was written from."),
dict(id="W03", title="Memory blocks are written, read and freed within their bounds and layout",
 statement="Numbers are written and read as their big-endian bytes at consecutive offsets; a write past the end of a block never happens; a block is allocated with its size, used only if the allocation succeeded, freed once and with the layout it was allocated with, and its bytes become a vector of exactly that length. Memory is handled by hand in this one place only.",
 over=["inputs"], q="every block, offset and value",
 why="Out-of-bounds writes, wrong layouts and double frees are undefined behaviour that tests survive.",
 files=[J+"memory_block.rs", J+"memory_block_read.rs", J+"memory_block_write.rs"], mech=[("block", J+"memory_block.rs"), ("reader", J+"memory_block_read.rs"), ("writer", J+"memory_block_write.rs")],
 decide="Inventory of every unsafe allocation and pointer primitive called in the crate; linear-offset reasoning on index terms of each read, dominance of the bounds comparison over the copy, layout and ownership provenance from allocation to deallocation."),
dict(id="W04", title="A block passed across the boundary is consumed once and lives long enough",
 statement="A block JavaScript allocates is kept under its address, and the value at an address is taken out once and decoded; a null address is no value, an unknown address or undecodable block is logged and gives no value. A callback gets the value at its pointer; its result stays allocated until JavaScript frees it and is returned as pointer and size. A block passed to JavaScript outlives the call and the reply is taken from the returned address.",
 over=["histories", "inputs"], q="every sequence of allocations, calls and frees",
 why="Use after free and leaks across the boundary cannot be seen by native tests, which never cross it.",
 files=[A+"arguments.rs", A+"api_dom_access.rs", "crates/vertigo/src/lib.rs"], mech=[("blocks", A+"arguments.rs"), ("calls out", A+"api_dom_access.rs"), ("calls in", "crates/vertigo/src/lib.rs")],
 decide="Value provenance over all paths of the argument store, the exported callback entry point and the outgoing call, with drop events ordered against the external call and the packing arithmetic evaluated symbolically."),
dict(id="W05", title="Values converted to JSON and back are the same values",
 statement="For every type with built-in JSON conversion (integers up to 2^53, text, booleans, unit, dates, lists, options, maps) conversion to JSON and back gives the same value; the other kinds of JSON are refused with an error that says where in the document it is. A property is read by its name and a missing one is an error.",
 over=["inputs"], q="every value of every supported type and every JSON document",
 why="Each type has its own pair of functions and tests cover a few; the error cases are mostly untested.",
 files=[J+"serialize.rs", J+"serialize_chrono.rs", J+"js_json_struct.rs"], mech=[("conversions", J+"serialize.rs"), ("dates", J+"serialize_chrono.rs"), ("properties", J+"js_json_struct.rs")],
 decide="For each pair of implementations, the JSON form each writer path produces (a term) and the variant case split of the reader; the reader's term must invert the writer's, element loops must cover the whole collection, and contexts must contain the index or key.",
 note="Options of options and options of unit share one form for two values; they are excluded by the statement's 'supported types' being the listed ones."),
dict(id="W06", title="Equal JSON values hash equally, different ones compare different",
 statement="Two JSON values are equal exactly when they are of the same kind with the same content, numbers compared by their bits; equal values have equal hashes whatever order their objects were built in, so they can be keys of caches and maps.",
 over=["inputs"], q="every pair of JSON values",
 why="Hash map iteration order differs between equal maps at random, and tests hash no objects.",
 files=[J+"js_json_struct.rs"], mech=[("JsJson", J+"js_json_struct.rs")],
 decide="Case split of eq over both operands' variants; per variant, what reaches the hasher must be content, and entries of an unordered map must be ordered by key on every path before they reach it."),
dict(id="W07", title="Positional arguments are taken in order, each once, of the right type",
 statement="Each read of a positional argument takes exactly one from the front and gives its value when it has the asked type; a missing argument, a wrong type, a failing element of a list or left-over arguments are errors. Only a list is read this way.",
 over=["inputs"], q="every argument list and every reader",
 why="A reader that skips or repeats an argument shifts all later ones; each reader is separate code.",
 files=[J+"js_value_list_decoder.rs", J+"js_value_struct.rs"], mech=[("reader", J+"js_value_list_decoder.rs")],
 decide="Typestate of the argument queue (exactly one pop from the front per path) and case split on the popped variant against a table; readers missing from the table are reported."),
dict(id="W08", title="Plain values become the browser values they stand for",
 statement="Converting a plain Rust value into a value for the browser keeps it: an integer of any width becomes a number of a kind that holds all its values, with the same value; a float, a boolean and a text stay what they are; a missing text becomes null; a map or list of pairs becomes an object with exactly those names and values.",
 over=["inputs"], q="every value of every convertible type",
 why="Identifiers, timestamps and sizes cross the boundary through these conversions; a conversion that narrows or changes sign is right for all small values.",
 files=[J+"js_value_struct.rs"], mech=[("converter", J+"js_value_struct.rs")],
 decide="Each conversion's result term is compared with its parameter; integer conversions are checked by the ranges of the source type, the casts on the way and the variant's field."),
]
