H = "crates/vertigo-cli/src/serve/"
PROPS = [
dict(id="S01", title="Every page request is answered: nothing outstanding, time limit, or error",
 statement="A page request starts one application instance and runs its entry point once. Messages of the application are handled in the order they arrive until an answer is known: the page is sent when no message is waiting and no request of the application is outstanding, or when the time limit (a constant, at most a minute, started before anything is waited for) ends, whichever is first. The server only sleeps while a request is outstanding. A panic or trap of the application gives an error response and the instance is never entered again; a plain-text answer is sent as it is. The timer is cancelled when the answer is known, and messages that arrive afterwards do no harm. The time limit cannot interrupt an application that computes for ever.",
 over=["schedules", "histories"], q="every order of messages, timer and replies during a request",
 why="Whether a page is sent too early, never, or after a panic depends on the interleaving of replies with the loop; there are no tests of it.",
 files=[H+"server_state.rs", H+"html/html_response.rs", H+"wasm/wasm_instance.rs", "crates/vertigo-cli/src/commons/spawn.rs"], mech=[("request loop", H+"server_state.rs"), ("messages", H+"html/html_response.rs"), ("instance", H+"wasm/wasm_instance.rs")],
 decide="All paths of the request coroutine's MIR with await points as events: each receive is matched with its handling, each way out with the reason that allows it (evaluating the path conditions with no outstanding request); message handler paths per variant; callers of the functions that enter the application; drop of the timer after the last receive."),
dict(id="S02", title="Requests are isolated: each has its own instance, data and page",
 statement="Every page request gets its own store, instance, message channel and empty page; the application is told the requested address (path and query) and the configured environment, and nothing of another request. The state shared by requests is read-only while they run and no other global holds request data.",
 over=["histories", "schedules", "inputs"], q="every set of concurrent or successive requests",
 why="A shared store or page would leak one visitor's content to another only under concurrency.",
 files=[H+"server_state.rs", H+"html/html_response.rs", H+"wasm/wasm_instance.rs", H+"request_state.rs", H+"serve_run.rs"], mech=[("server state", H+"server_state.rs"), ("imports", H+"wasm/wasm_instance.rs"), ("handler", H+"serve_run.rs")],
 decide="Ownership provenance over all paths of request and constructor functions, the captures of the functions given to the application, a type query over the fields of the shared state and an inventory of statics with interior mutability."),
dict(id="S03", title="Equal server-side requests are sent once and everyone asking gets the answer",
 statement="While a page is rendered, a request equal to one already sent (method, address, headers and body equal) is not sent again: its callback waits with the others, or gets the known answer at once. When the answer arrives every waiting callback is called once with its success, status and body of its own kind, and the answer is kept. Equality and hash agree: equal requests have equal hashes whatever the order of their headers.",
 over=["schedules", "inputs", "histories"], q="every set of requests and order of answers",
 why="Needs several askers and a particular order of answers; a hash that depends on map iteration order fails only sometimes.",
 files=[H+"html/html_response.rs", H+"wasm/message.rs", H+"wasm/wasm_instance.rs"], mech=[("messages", H+"html/html_response.rs"), ("equality and hash", H+"wasm/message.rs"), ("delivery", H+"wasm/wasm_instance.rs")],
 decide="Paths of the message handler per state of the request table, the captured request of the spawned task, iteration-completeness of the delivery loop, and the fields compared by eq against those hashed, with the order in which map entries are hashed."),
dict(id="S04", title="Server-side requests send what was asked and deliver what was answered",
 statement="A request of the application is sent at most once with its method (any case, surrounding spaces dropped), address, headers (names in lower case) and body: text as it is, JSON as the same JSON value (integers as integers, NaN and infinities as null), binary as the same bytes; an absent body sends none. A content type is set for a body only if the application set none. The reply is delivered with its status and a body decoded by its content type (JSON as the same JSON value, text, otherwise the bytes). Whatever goes wrong (address, method, connection, undecodable body) gives an unsuccessful answer; nothing panics.",
 over=["inputs", "schedules"], q="every request an application can make and every reply or failure",
 why="Only successful GETs with simple bodies occur in demos; methods, number kinds, failures at each await and unusual content types need specific inputs.",
 files=[H+"html/send_request.rs", "crates/vertigo/src/driver_module/js_value/serialize.rs"], mech=[("request", H+"html/send_request.rs"), ("answer", H+"wasm/message.rs")],
 decide="All paths of the sending coroutine with awaits as events: the builder chain back from send() is matched with the request's parts per body kind, every failure branch must end in an unsuccessful answer, and both JSON conversions are evaluated per variant of their input, closures included; every call that can panic on the path is a violation."),
dict(id="S05", title="The server-side page is the tree that the commands describe",
 statement="The page kept for a request follows the application's commands in order: created nodes exist with their name or text, a text update replaces the text, the last value set for an attribute counts and a removed one is gone, insert-before moves a node out of its old place to just before the reference node (last without one), removed nodes are gone from their parent, CSS rules are kept in order. Rendering lists each element's current children from first to last, its attributes and the rules in order. A node is in at most one place.",
 over=["histories"], q="every sequence of commands",
 why="The children list is a hand-written ring of left and right links; wrong links show only for particular orders of insertions, moves and removals.",
 files=[H+"html/element.rs", H+"html/element_children.rs", H+"html/ordered_map.rs", H+"html/dom_command.rs"], mech=[("commands", H+"html/element.rs"), ("children", H+"html/element_children.rs"), ("attributes", H+"html/ordered_map.rs")],
 decide="Each command variant's paths through feed must have exactly that command's effects on the node table, parent table, attribute map and children list (moves detach first, looking up the old parent before the new one is recorded); insertion and removal in the ring are verified case by case as link equations (empty, last, before a reference, first child); listing and rendering by iteration completeness and order."),
dict(id="S06", title="A rendered page is HTML that reads back as the rendered tree",
 statement="Writing a tree as HTML keeps its meaning: text and attribute values are escaped so that no content can add markup, element and attribute names are written so that they cannot either, attributes keep their order and are quoted, script and style content is written as it is except that it cannot close its element, void elements (and only those) have no content and no closing tag, every other element is closed after its children, children and text keep their order, adjacent text is joined and none is lost, comments write nothing, and the page starts with the document type. Changing an element found by path changes the n-th child of that name at each step, or reports that it is missing.",
 over=["inputs"], q="every tree and every text in it",
 why="A missing escape or a void element closed wrongly shows only for specific content; the unit tests have a handful of small trees.",
 files=[H+"html/html_element.rs"], mech=[("writing", H+"html/html_element.rs")],
 decide="All paths of the serialiser with every piece of text it pushes: each piece must be constant markup or a tree text under an escape that is safe in that position; the text between tags is parsed as open tag, content, close tag per element kind; tag-name tests are evaluated on all void, raw and other HTML element names; the grouping of text is followed over widened loop turns."),
dict(id="S07", title="A page carries its rules, environment and starting script exactly once",
 statement="The document sent is the whole tree of the html element the application built: every environment entry is an attribute data-env-<name> of html with its value, every CSS rule made so far is in the body before its content, in the order the rules were made, and one script as last child of the body names the script file and the wasm file of this build. Nothing else in the tree is changed; a tree without html or body gives an error answer instead of a page.",
 over=["inputs", "histories"], q="every tree, environment and list of rules",
 why="The order of the rules decides which of them wins, and an entry lost or a second script shows only with several entries, rules or odd trees.",
 files=[H+"html/html_response.rs", H+"html/html_element.rs"], mech=[("assembling", H+"html/html_response.rs"), ("changing by path", H+"html/html_element.rs")],
 decide="All paths of the function that assembles the page: the document written must be the tree taken from the node table, loops over environment and rules must be complete with one store per turn, insertions at front with an odd number of reversals, one script element with exactly its three attributes, and errors only under a missing html or body."),
dict(id="S08", title="Answers carry their status, type, caching rule and, when watching, the script",
 statement="A page is sent with status 200 as text/html in UTF-8, an application's own answer with status 200 as text/plain, an error with status 500 as text/plain; status, type and body of the answer reach the client unchanged. Pages and errors are never to be stored by a cache, files of the build may be cached publicly, and the rule for files never covers pages or proxied answers. Exactly when watching, a successful HTML page (and nothing else) gets the script that listens on the port given, without losing any of the page.",
 over=["inputs", "configurations"], q="every answer, with and without watching",
 why="A cacheable page leaks one visitor's page to others only behind a cache; the wrong layer order or condition is invisible in a single request.",
 files=[H+"response_state.rs", H+"serve_run.rs", H+"html/html_response.rs"], mech=[("answers", H+"response_state.rs"), ("handler and layers", H+"serve_run.rs")],
 decide="Constructor summaries, the builder chain of every path of the handler traced back to the awaited answer, the routers under each layer call, and the pieces of the rewritten body on every path of the script insertion."),
dict(id="S09", title="The server serves the build given, its files and proxies, and pages otherwise",
 statement="The build in the given directory is served at the given host and port: the index names script and application, files are served under the directory of the application's address, an address below it is mapped to the file in the directory and any other is refused, and every proxy option answers GET and POST below its path by asking its target with the rest of the address, the request's headers and JSON body (POST), and passing on status, headers and body; a failure to reach the target is a server error. Anything else is a page of the newly loaded application. A directory, application or address that cannot be used is an error, not a panic.",
 over=["inputs", "configurations", "faults"], q="every configuration, request and reply of a proxied target",
 why="Proxies and mount paths need particular replies (chunked, failing mid-body) and option combinations, for which there are no tests.",
 files=[H+"serve_run.rs", H+"mount_path.rs", H+"server_state.rs"], mech=[("server", H+"serve_run.rs"), ("mount path", H+"mount_path.rs")],
 decide="Paths of the set-up coroutine with the router built on each: what is nested, under which path, complete iteration over proxies with the accumulated router; the closures of a proxy entered with their captures; all failure branches of both proxy functions; the directory of an address as last-slash split."),
dict(id="S10", title="The server understands each call the application makes as that call",
 statement="While a page is rendered, every call the library makes into its surroundings is taken by the server as exactly that call: changes of the document, a plain response, a request (method, address, headers, body and who is answered) and a timer of zero become the one message that carries what was passed; the address, an environment variable, the time, whether this is a browser and the id of a timer are answered with that value; and everything that has no meaning on a server (cookies, logging, websockets, listeners, unknown calls) is answered with nothing and changes nothing. No call is taken for another one.",
 over=["inputs", "configurations"], q="every call the library can make, with any arguments",
 why="The two sides are separate programs that agree only by the words in the calls; tests check single words of single calls.",
 files=[H+"wasm/decode_commands.rs", H+"wasm/js_value_match.rs", H+"wasm/wasm_instance.rs", "crates/vertigo/src/driver_module/api/api_import.rs"],
 mech=[("decoders of calls", H+"wasm/decode_commands.rs"), ("list matching", H+"wasm/js_value_match.rs"), ("server side of a call", H+"wasm/wasm_instance.rs"), ("the calls", "crates/vertigo/src/driver_module/api/api_import.rs")],
 decide="All calls are read off the client's builder chains (kind of every argument, constants exact, the rest left as terms); the control-flow paths of the server's closure and of each decoder are filtered by these shapes, branch by branch, and what the remaining paths send, save and return is compared with what the call is owed; the loop of the list matcher is checked by itself."),
dict(id="S11", title="Values cross between server and application whole, and the right one runs",
 statement="A call of the application is read from exactly the bytes of its memory that it named; bytes that cannot be decoded count as nothing. A value for the application is written whole, in its encoding, into a block of just that size that the application has allocated, in the memory as it is after allocating, and the application is told the address of that block; only the absent value has none. The application that runs is the one in the wasm file of the build, with the environment configured; a file that is missing or is no application is an error answer.",
 over=["inputs", "configurations", "faults"], q="every value, address and size, and every state of the memory",
 why="A block one byte short or a memory looked at before allocating fails only for particular sizes, when the memory has to grow.",
 files=[H+"wasm/data_context.rs", H+"wasm/wasm_instance.rs", H+"server_state.rs"],
 mech=[("memory exchange", H+"wasm/data_context.rs"), ("instance", H+"wasm/wasm_instance.rs"), ("loading", H+"server_state.rs")],
 decide="All paths of the exchange functions: the part of memory read or written is taken apart into its memory, start and end as sums of 32 bit numbers and compared with the block in question; order of the look at the memory and the allocation on each path; loading by provenance of the bytes from the path to the module, with every failure branch ending in an error."),
]
