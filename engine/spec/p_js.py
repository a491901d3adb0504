J = "crates/vertigo/src/driver_module/"
S = J + "src_js/"
TWO = "Both the committed bundle wasm_run.js and the TypeScript it is made of are evaluated and each must meet every obligation. The engine of the page (its DOM, its JSON and number conversions, fetch, WebSocket) is assumed to do what its names say."
PROPS = [
dict(id="T01", title="The page reads and writes the value format the module uses",
 statement="The page's decoder and encoder agree with the module's value format: every tag stands for the same kind on both sides, numbers are big-endian of the width their kind has, texts and bytes follow their length, lists and objects hold their members one after another in order (a key before its value), JSON values have their own tags. What is decoded and encoded again is the same bytes; the memory asked for is exactly what is written; an unknown tag is refused without doing anything. Memory is always looked at as it is after the module's last run, also when it has grown.",
 over=["inputs"], q="every value, every length and nesting",
 why="No JavaScript runs in the tests; a tag, width or offset that differs shows only in a browser, for the values that use it.",
 files=[J+"wasm_run.js", S+"jsvalue.ts", S+"jsjson.ts", S+"buffer_cursor.ts", S+"wasm_init.ts"], mech=[("values", S+"jsvalue.ts"), ("JSON", S+"jsjson.ts"), ("cursor", S+"buffer_cursor.ts"), ("memory", S+"wasm_init.ts")],
 decide="Symbolic evaluation of the script's syntax tree, per kind, from memory to memory: reads and writes with symbolic offsets and lengths are compared with a table of the format; loops are summarised per turn with the offset they carry.", note=TWO),
dict(id="T02", title="Access paths reach the page's values and bring results back",
 statement="A path of steps from the module starts at window, document, the page's functions or a node by its number, and goes step by step through properties and calls with the values given (each converted to the JavaScript value it stands for, in order), or sets a property. The result comes back as the value it is: text, whole and other numbers, big integers, booleans, null, bytes, JSON of objects, several properties by name; undefined as nothing. A step that is malformed, names nothing or throws, and a result that is no value, give nothing: later steps are not done and the module is not left by an exception.",
 over=["inputs", "faults"], q="every path, every value, every step that can fail",
 why="Only a browser executes it; the wrong conversion or an exception through the module needs a value or failure no example has.",
 files=[J+"wasm_run.js", S+"js_node.ts", S+"wasm_module.ts", S+"jsvalue.ts"], mech=[("steps", S+"js_node.ts"), ("entry", S+"wasm_module.ts")],
 decide="Symbolic evaluation of dom_access for each kind of step, value and failing operation; events on host objects and what is written to the module's memory are compared with what the path says.", note=TWO),
dict(id="T03", title="DOM commands from the module change the page as they say",
 statement="Each DOM command does what it names to the node it names: creating, placing before the reference or at the end, removing, texts and comments, attributes, styles, and event callbacks, in the order of the commands; a command that cannot be done does not stop those after it. What is removed is forgotten. The first update takes away what the server rendered and nothing else. Events reach the callback with their data, callbacks taken away are not called again, a callback's answer stops the event where it says so, and a plain click on a link within the application moves without loading a page.",
 over=["inputs", "histories"], q="every sequence of commands, every event",
 why="The command interpreter only runs in a browser; the Rust tests stop at the commands.",
 files=[J+"wasm_run.js", S+"api_browser/dom/dom.ts", S+"api_browser/dom/map_nodes.ts"], mech=[("commands", S+"api_browser/dom/dom.ts"), ("nodes", S+"api_browser/dom/map_nodes.ts")],
 decide="Symbolic evaluation of batches of commands over symbolic nodes and texts, and of the registered listeners; the calls and sets on host nodes are compared with a table per command and event.", note=TWO),
dict(id="T04", title="Timers, cookies, locations and environment answer as the module asks",
 statement="A timer calls back the callback it was set for, each time it fires, until the number it returned is cleared. A cookie is set encoded, for the whole site, same-site, with the expiry given, and found again by its whole name, decoded (JSON parsed, null when it is missing or no JSON). The hash and the path are read as they are now; going elsewhere changes the location once and tells everyone who asked, as does the browser's own navigation, and going where one is does nothing; who was removed is not told. Environment values, time zone and random numbers within both bounds are those of the page.",
 over=["inputs", "histories"], q="every name, value and sequence of calls",
 why="No test runs these functions; a cookie found by part of its name or a callback kept after removal needs a particular history.",
 files=[J+"wasm_run.js", S+"api_browser.ts", S+"api_browser/cookies.ts", S+"api_browser/interval.ts", S+"api_browser/hashrouter.ts", S+"api_browser/historyLocation.ts"], mech=[("cookies", S+"api_browser/cookies.ts"), ("timers", S+"api_browser/interval.ts"), ("hash", S+"api_browser/hashrouter.ts"), ("history", S+"api_browser/historyLocation.ts")],
 decide="Symbolic evaluation of each function and of the listeners and timers it leaves; cookie lookup by constant evaluation over a table of cookie texts.", note=TWO + " Cookie values are those vertigo writes (a cookie set elsewhere with an unencoded = is skipped by design)."),
dict(id="T05", title="A request is sent as asked and answered exactly once",
 statement="A request goes out once with the method, address, headers and body given, with the content type of its body (text, bytes or JSON) unless the headers have one. It is answered exactly once: with the status and the body as JSON, text or bytes by the content type of the answer, however that is written; when anything fails - the headers, sending, the network, reading or parsing the body - once, as failed, with the status known by then and the error's text.",
 over=["inputs", "faults"], q="every request, answer and point of failure",
 why="It needs a server, and a failure at each await, in a browser.",
 files=[J+"wasm_run.js", S+"api_browser/fetch.ts"], mech=[("fetch", S+"api_browser/fetch.ts")],
 decide="Symbolic evaluation with every operation that can fail failing in turn; on each path the callbacks into the module are counted and their value compared with the answer's parts.", note=TWO + " The callback itself is taken not to throw."),
dict(id="T06", title="A websocket tells opening, messages and closing, and reconnects until left",
 statement="Registering a websocket connects to its host. Opening, every text message and closing are told to its own callback, once each and in order; nothing is told before it opens or after it closes. A connection that does not open within five seconds, fails or is lost is closed and made again three seconds later, with messages only from the connection in use. What is sent goes to the open connection of that callback and nowhere without one. Once left, nothing is told any more, its connection is closed - also one that is still opening - and no other is made.",
 over=["histories", "schedules"], q="every order of events of the connection and calls of the module",
 why="It depends on the order of network events, timers and calls, and runs only in a browser.",
 files=[J+"wasm_run.js", S+"api_browser/websocket/websocket.ts", S+"api_browser/websocket/connection.ts", S+"api_browser/websocket/event_emiter.ts", S+"api_browser/websocket/promise.ts"], mech=[("connection", S+"api_browser/websocket/connection.ts"), ("registry", S+"api_browser/websocket/websocket.ts"), ("promise", S+"api_browser/websocket/promise.ts")],
 decide="Symbolic evaluation of the script with its async functions suspended and resumed where they wait, over a table of event orders (17 stories); effects after each event are compared with the table.", note=TWO + " Orders of events outside the table are not decided."),
dict(id="T07", title="The page starts its module once and reads the answers of callbacks",
 statement="When the page is loaded, or three seconds after the script, the module named by the first element asking for one is fetched and its entry called once with the version of the crate; a second event, the same module again or another one starts nothing more. A module that cannot be streamed is fetched whole and started the same way. The module gets exactly the two functions it imports. The answer of a callback is read from the address and length it encodes, before that memory is freed once; no answer is read as nothing. A panic's message is read from where the module says.",
 over=["inputs", "schedules", "faults"], q="every page, order of start events, failure of streaming, and answer",
 why="Only a browser starts it; the fallback and the packing of address and length are not run by tests.",
 files=[J+"wasm_run.js", S+"index.ts", S+"wasm_module.ts", S+"wasm_init.ts"], mech=[("start", S+"index.ts"), ("module", S+"wasm_module.ts"), ("callbacks", S+"wasm_init.ts")],
 decide="Symbolic evaluation of the script from its first statement through its load listener and timer, and of callbacks with tabulated packed answers; the version is compared with the crate's.", note=TWO + " Addresses below 2^31."),
]
