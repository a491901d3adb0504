V = "crates/vertigo/src/"
D = V + "dom/"
M = V + "driver_module/"
PROPS = [
dict(id="D01", title="Each DOM node is created once and removed once, under its own id",
 statement="Every element, text and comment handle announces exactly one creation under a fresh id (html, head and body have their own fixed ids) and, when dropped, exactly one removal of that same id and kind. Handles cannot be cloned or forgotten. Adding a child attaches it once, at the end of its parent, and makes the parent own it.",
 over=["programs", "histories"], q="every construction path, every drop, every tree shape",
 why="A doubled, missing or wrong-id removal only shows as a stale or vanished node after a particular sequence of drops.",
 files=[D+"dom_element.rs", D+"dom_text.rs", D+"dom_comment.rs", D+"dom_id.rs"],
 mech=[("element", D+"dom_element.rs"), ("text", D+"dom_text.rs"), ("comment", D+"dom_comment.rs"), ("ids", D+"dom_id.rs")],
 decide="All bodies that build a node handle are found by aggregate type; on every returning path the creation command's id term must be the handle's id term and originate in the atomic counter (or a name test for the fixed ids); drop bodies mirrored; a crate-wide sweep of removal call sites and of forget/leak calls."),
dict(id="D02", title="Every DOM operation becomes one command, sent once, removals last",
 statement="Each DOM operation queues exactly one command carrying exactly its arguments. A flush takes everything queued, sends all of it in a single message and leaves the queue empty. Within a message node removals come after every other command, and each of the two groups keeps its order. Turning command logging on does not change what is sent.",
 over=["histories"], q="every sequence of operations and flushes",
 why="Loss or reordering needs specific mixes of commands between two flushes; tests look at small logs.",
 files=[M+"dom.rs", M+"dom_command.rs"], mech=[("queue and flush", M+"dom.rs"), ("ordering", M+"dom_command.rs")],
 decide="Per-operation effect rule (one push to the queue, right variant, each field is the parameter of that name), loop-completeness and provenance of the flushed message, classification of all 13 command kinds by the partition in sort_commands."),
dict(id="D04", title="First DOM flush waits until all initial requests have finished",
 statement="DOM changes are held back while requests started at the beginning are still running: the gate opens exactly when the count of running requests falls back to zero, everything held back is then flushed, and an open gate never closes again. Each request start and stop is counted exactly once.",
 over=["schedules"], q="every interleaving of request starts, stops and transactions",
 why="Depends on the interleaving of overlapping requests with transactions.",
 files=[M+"dom.rs", M+"driver.rs"], mech=[("gate", M+"dom.rs"), ("end-of-transaction hook", M+"driver.rs")],
 decide="State-machine extraction of the gate (stores and results per state, guard terms evaluated for counter 1 and >1), guard on every flush, wiring of both request signals and ownership of their handles.",
 note="The extracted rules are about the counter's transitions; that every start has a stop is property C22."),
dict(id="D05", title="An element's attributes always follow their sources",
 statement="A constant attribute is set once; a reactive one is subscribed, the subscription lives as long as the element and every new value is written. A missing optional value removes the attribute. The class attribute is the combination of the class attribute, the css class and the suspense class, and is re-sent exactly when that combination changed.",
 over=["histories", "inputs"], q="every attribute source kind, every sequence of values",
 why="Tests check a few sources; a wrong merge or a lost update needs a particular sequence (set, clear, set again).",
 files=[D+"dom_element.rs", D+"dom_element_class.rs", D+"attr_value.rs"], mech=[("attributes", D+"dom_element.rs"), ("class merge", D+"dom_element_class.rs")],
 decide="Exhaustive case analysis over attribute source kinds; subscription closures are analysed with their captures bound; all-paths effect rules on set/remove, the class cache and its comparison."),
dict(id="D06", title="An event listener lives exactly as long as its element",
 statement="Each event helper registers one listener for its own event name and announces it for that element; dropping the element withdraws exactly that listener and releases the registration. When fired it calls the user's callback at most once with the decoded payload and returns the callback's answer; a payload that does not decode never reaches the callback. A callback given as a computed is always the latest one.",
 over=["programs", "histories", "inputs"], q="all twelve event kinds, every payload, every element lifetime",
 why="Tests never fire most events; a mismatched id or a dropped handle only shows in a browser after an element is removed.",
 files=[D+"dom_element.rs", D+"callback.rs", M+"api/callbacks.rs"], mech=[("listener", D+"dom_element.rs"), ("callback sources", D+"callback.rs")],
 decide="Pairing rule: id, event name and element of the removal in the drop closure are the same terms as in the registration; per-event rule on name, payload decoding and answer over all paths of each listener closure."),
dict(id="D07", title="A dynamic value renders its current content, right before its marker",
 statement="A value embedded in the DOM is rendered once for each new value; the new content is placed in the marker's parent directly before the marker, replaces (and thereby removes) the previous content, and no content means nothing is shown. An embedded text is updated with each new value.",
 over=["histories"], q="every sequence of values including missing ones",
 why="Wrong anchors or leaked previous content show only after particular value sequences.",
 files=[V+"render/dom_value.rs", D+"dom_text.rs"], mech=[("value rendering", V+"render/dom_value.rs"), ("computed text", D+"dom_text.rs")],
 decide="The mount and update closures are analysed with captured terms: the argument of each insertion is the rendered node, the mount's parent and the marker; the store of the new content happens on every path."),
dict(id="D08", title="A rendered list shows its items in order, reusing nodes by key",
 statement="After each change a rendered list holds one node per item in item order. Unchanged items at both ends keep their nodes untouched; in between, nodes of items with the same key are reused, each at most once, missing ones are rendered, and the unused ones are dropped. Insertion points are never the markers of nested dynamic items.",
 over=["inputs", "histories"], q="every pair of old and new lists, including duplicates and nested dynamic items",
 why="The order of the result depends on how old and new lists overlap; tests try a few permutations of plain elements.",
 files=[V+"render/dom_list.rs"], mech=[("reorder", V+"render/dom_list.rs")],
 decide="Structure rules: prefix/suffix matching is balanced (taken = kept + put back, kept only when equal, in order); the middle part visits every old and new item, pairs each item with its node and attaches it in forward order before one fixed anchor; the anchor's node kind excludes markers; result is top+middle+bottom."),
dict(id="D09", title="Markers and fragments mount their content where they are attached",
 statement="Whenever a marker is attached to a parent, its content is mounted in that parent with the marker as reference, after the marker's own insertion; the mounted resource lives until the next mount or until the marker is dropped, and the hook disappears with the marker. A fragment attaches all its nodes before its marker in their order.",
 over=["programs", "histories"], q="every nesting and re-attachment of markers and fragments",
 why="Nested fragments and re-attachment orders are not covered by tests.",
 files=[D+"dom_comment.rs", M+"dom.rs"], mech=[("marker", D+"dom_comment.rs"), ("mount hooks", M+"dom.rs")],
 decide="Registration/removal pairing on the hook table keyed by the marker id; order of the insert command and the hook call; forward iteration and fixed anchor in the fragment's mount closure."),
dict(id="D10", title="Equal styles share one class whose rules are inserted once",
 statement="Each distinct css text is turned into exactly one generated class with a fresh id; using the same text again reuses the class and inserts nothing. All rules generated for it (own rule, nested selectors, media queries, keyframes) are inserted, refer to that class, and the class's own rule comes before its conditional ones.",
 over=["inputs", "histories"], q="every css text and order of use",
 why="Tests check the text transformation on samples, not the caching and insertion protocol.",
 files=[V+"css/css_manager.rs", V+"css/transform_css/mod.rs", V+"css/next_id.rs", M+"driver.rs"], mech=[("css manager", V+"css/css_manager.rs"), ("transformation", V+"css/transform_css/mod.rs")],
 decide="Cache protocol on all paths (hit: no insertion; miss: insert once, store the returned id under the same text in the same table, use it); every css row is consumed; provenance of the class id in all selectors; emission order.",
 note="How a css text is split into rows is D13."),
dict(id="D13", title="A style's text becomes its rules, whatever characters it holds",
 statement="The text of a style with balanced braces, whatever characters it holds, is taken apart into rows exactly at the semicolons outside of braces, without panicking; a row's block reaches from its first opening to its last closing brace, uncut. A row with a pseudo selector becomes a rule under the class's selector with it appended, a media query a rule set holding its declarations under the class and its pseudo selectors' rules, an animation block keyframes under a fresh name used in its place, and every other row a declaration of the class with its name and whole value.",
 over=["inputs"], q="every css text with balanced braces (nesting looked at to depth three)",
 why="Tests use a dozen ASCII texts; a media query without a colon or a letter outside ASCII is enough to take another path.",
 files=[V+"css/transform_css/splits.rs", V+"css/transform_css/mod.rs"], mech=[("row splitter", V+"css/transform_css/splits.rs"), ("rules", V+"css/transform_css/mod.rs")],
 decide="The splitter's loop body is read from MIR as a transition system over what it carries; its product with the specified row automaton is explored over all character classes the code tells apart (no push but at a semicolon outside braces, then exactly [start, index) with the next start behind it; no panic state reachable). Byte-position provenance of every cut; shape and provenance of every emitted rule on all paths.",
 note="Quotes and comments inside css are not treated specially by the code nor by the specification; whitespace between pieces is not compared."),
dict(id="D11", title="A suspense layer is told exactly when content below it starts or stops loading",
 statement="The layers know for every suspense element all its ancestors at any time: each structural change recomputes the paths before the layers are told, every layer whose state changed is told the new state exactly once and no other. Removing a node or dropping the layer removes its entry; the stored callback does not keep the element alive.",
 over=["histories"], q="every sequence of attaching, moving and removing nodes, suspense elements and layers",
 why="Needs particular tree edits between loading states; no test covers the suspense bookkeeping.",
 files=[M+"dom_suspense/dom_suspense_mod.rs", M+"dom_suspense/node_paths.rs", D+"dom_element_class.rs", M+"dom.rs"], mech=[("layers", M+"dom_suspense/dom_suspense_mod.rs"), ("paths", M+"dom_suspense/node_paths.rs")],
 decide="Ordering and completeness rules: change recorded, paths recomputed over all entries, then all layers examined, callback called iff the stored state differs and the stored state updated; keyed add/remove pairing; weak capture."),
dict(id="D12", title="Every DOM command is read as the command that was written",
 statement="The JSON form of each DOM command names its kind and carries every one of its fields, each under its own key, and no two commands share a kind. The server renderer reads every kind back as the same command with the same fields, so no command is dropped, renamed or given another field's value on the way.",
 over=["inputs"], q="every command with every field value",
 why="Writer and reader live in different crates and agree only by string keys; a crossed key shows only for the one command and field it concerns.",
 files=[M+"dom_command.rs", "crates/vertigo-cli/src/serve/html/dom_command.rs"], mech=[("writer", M+"dom_command.rs"), ("server's reader", "crates/vertigo-cli/src/serve/html/dom_command.rs")],
 decide="Both tables are extracted from the compiled bodies (per variant: the inserted keys and the field each value faithfully contains; per kind string: the variant built and the key each field is read from) and compared with each other, not with a list of names."),
dict(id="D14", title="What is placed in a page is shown as what it stands for",
 statement="An element, text, comment or node embedded in a page is that node. Anything with a text form is shown as that text. A value, computed or router is shown as the text of its current content. Rendering a value, an optional value or a list shows exactly what the given function makes of the current content, once; a cache shows the given view only of ready content, and an error's message. An attribute, style or callback given as a constant, a value, a computed or an optional one keeps that source and that optionality. An element's reference reaches that element.",
 over=["inputs"], q="every embedded source, attribute and callback",
 why="Implementations per type, chosen by the compiler; tests use a few of them.",
 files=["crates/vertigo/src/dom_macro/dom.rs", "crates/vertigo/src/dom/attr_value.rs", "crates/vertigo/src/dom/callback.rs", "crates/vertigo/src/dom/dom_node.rs", "crates/vertigo/src/computed/computed_box.rs", "crates/vertigo/src/computed/value.rs", "crates/vertigo/src/fetch/lazy_cache.rs", "crates/vertigo/src/router.rs"],
 mech=[("embedding", "crates/vertigo/src/dom_macro/dom.rs"), ("attributes", "crates/vertigo/src/dom/attr_value.rs"), ("callbacks", "crates/vertigo/src/dom/callback.rs"), ("rendering", "crates/vertigo/src/computed/computed_box.rs")],
 decide="Every implementation of EmbedDom and every conversion to AttrValue, CssAttrValue, Callback, Callback1 and DomNode is enumerated from the compiler's facts; the result term must carry the source itself; for reactive ones the denotation of the computed and the view closure are compared with what is specified for the type."),
]
