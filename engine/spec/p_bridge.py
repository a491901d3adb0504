V = "crates/vertigo/src/"
M = V + "driver_module/"
A = M + "api/"
F = V + "fetch/"
PROPS = [
dict(id="B01", title="Every JavaScript registration is undone when its handle is dropped",
 statement="Timers, intervals, address listeners and websockets register exactly one callback under a fresh id and hand JavaScript that id and the caller's arguments. The returned handle keeps the callback alive; dropping it tells JavaScript to undo exactly that registration and forgets exactly that callback. A one-shot callback and a detached timer forget themselves after running once.",
 over=["programs", "histories"], q="every registering function, every drop, every sequence of registrations",
 why="A leaked or wrongly cleared callback shows only after a particular sequence of registering and dropping, and in the browser.",
 files=[A+"api_import.rs", A+"callbacks.rs"], mech=[("registrations", A+"api_import.rs"), ("callback store", A+"callbacks.rs")],
 decide="Pairing rule over all callers of CallbackStore::register found through the call graph: registration call, id term passed to JavaScript, and the clean-up closure inside the returned DropResource (analysed with its captures bound) are matched against the undo table; plus the store's own insert/remove and counter."),
dict(id="B02", title="A callback from JavaScript runs once, in one transaction, and is answered",
 statement="When JavaScript calls back, the callback with that id is run exactly once, with the argument passed, inside exactly one transaction; its result is returned to JavaScript as pointer and size, nothing for no result. An unknown id is harmless, and a callback may register or drop callbacks while it runs. Address callbacks get the new address (empty when it is not text); timer and websocket callbacks get one call per event.",
 over=["histories", "inputs"], q="every callback id, argument and result, also callbacks that change the store",
 why="The entry point exists only in wasm; tests cannot call it, and double runs or a missing transaction need particular event sequences.",
 files=[V+"lib.rs", A+"callbacks.rs", A+"api_import.rs"], mech=[("entry point", V+"lib.rs"), ("callback store", A+"callbacks.rs")],
 decide="All paths of the exported entry point with the transaction entered and left as events; provenance of id, argument and packed result (evaluated on sample pointers); exhaustive variant analysis of the event payloads."),
dict(id="B03", title="Every request is sent as built, starts and stops once and is answered",
 statement="A request carries its callback id, method, address, headers and body, and its start is announced once. Whatever JavaScript replies (success, failure, a reply that cannot be decoded) the caller receives exactly one answer and exactly one stop is announced. The first render counts as one request.",
 over=["inputs", "schedules"], q="every request, every reply JavaScript can send",
 why="Malformed or failed replies and unusual methods and bodies are not sampled, and a missing stop or answer blocks the page or a task forever.",
 files=[A+"api_import.rs", M+"mod.rs", M+"driver.rs"], mech=[("fetch", A+"api_import.rs"), ("first render", V+"lib.rs")],
 decide="All paths of the request function and of the registered reply callback: exactly one send, one registration, one start; in the callback exactly one publish and one stop on every path, with the published value matched against the decoded reply."),
dict(id="B04", title="A lazy cache keeps at most one request running and stores its result",
 statement="While an update of a cache is running no second one is started; every update ends by unlocking and announcing its end exactly once, on every outcome. A fresh value is kept, a missing or expired value is requested when read. The result, error or decoded value is stored once, with the lifetime counted from the answer. Loading is shown exactly when asked for. Forgetting resets, forcing always requests. Clones share everything.",
 over=["schedules", "histories"], q="every interleaving of reads, forced updates, expiry and replies",
 why="Locking errors appear only when reads, expiries and replies interleave in particular ways.",
 files=[F+"lazy_cache.rs"], mech=[("cache", F+"lazy_cache.rs")],
 decide="Event-order automaton over all paths of the update function and of its spawned task (lock, start, spawn; request; unlock, stop), value provenance of what is stored, and a crate-wide search for other writers of the lock."),
dict(id="B05", title="A router's value is always the current address of its kind",
 statement="A router starts with the current address, listens to changes of the same kind of address (hash or path) and takes every new one; setting it pushes to that same kind, replacing replaces. A change reads, edits and writes in one transaction.",
 over=["programs", "histories"], q="both router kinds, every sequence of navigations",
 why="The two kinds differ only by a flag; a mix-up shows only in a browser with the other kind.",
 files=[V+"router.rs", A+"api_import.rs"], mech=[("router", V+"router.rs")],
 decide="Case split on the kind flag: on every path the reading, listening and writing API calls must be the ones of that kind, with data-flow from the listener's argument to the value."),
dict(id="B06", title="Request building and response reading lose and invent nothing",
 statement="Each builder step changes exactly its own part of the request. A response gives its status and body to the handler; failures, missing handlers' answers and undecodable bodies become an error that names the request and what came back. Text and binary bodies are never mistaken for the expected type. Mapping a resource never turns one state into another.",
 over=["inputs"], q="every builder sequence and every response",
 why="The combinations of status, body kind and handler outcome are too many to sample.",
 files=[F+"request_builder.rs", F+"resource.rs"], mech=[("requests and responses", F+"request_builder.rs"), ("resource states", F+"resource.rs")],
 decide="Functional-update rule on builder terms (which fields differ from the receiver), exhaustive case analysis of responses, bodies and resource states."),
dict(id="B07", title="A spawned task is polled whenever woken, until it finishes, then dropped",
 statement="A spawned future is stored with its own waker and scheduled once. Each wake schedules one run; a run polls a live task once and drops its future exactly when it finishes; later wakes do nothing. Cloning, waking and dropping wakers keeps the reference count balanced, so the task is neither freed early nor leaked. A published result is delivered to the waiting future, whichever comes first.",
 over=["schedules", "histories"], q="every order of wakes, polls, clones and drops",
 why="Unbalanced raw reference counts are undefined behaviour that most runs survive; lost wake-ups need particular orders.",
 files=[M+"utils/futures_spawn.rs", V+"future_box.rs", M+"driver.rs"], mech=[("tasks and wakers", M+"utils/futures_spawn.rs"), ("callback futures", V+"future_box.rs")],
 decide="Reference-count balance of the four waker functions computed from clone and drop events in their MIR against the RawWaker contract; typestate of the task cell (absent, pending, ready) in the run closure; wake-after-store order in the callback future."),
dict(id="B08", title="Values read from JavaScript arrive unchanged, odd ones give safe defaults",
 statement="Clock, time zone, random number, environment, cookie and address reads ask JavaScript for exactly that with the caller's arguments, return the answer unchanged (time zone in seconds, east positive) and fall back to a fixed default, without failing, on any other answer. Writes are sent once with the caller's arguments; Elapsed time is never negative. A sleep completes once its time has passed. Plain responses are only made on the server, from the handler's answer for the current address.",
 over=["inputs"], q="every answer of JavaScript",
 why="Tests run without JavaScript, and odd answers or a clock set back are not sampled.",
 files=[A+"api_import.rs", M+"driver.rs", V+"instant.rs"], mech=[("reads and writes", A+"api_import.rs"), ("driver", M+"driver.rs"), ("clock", V+"instant.rs")],
 decide="Table of expected JavaScript calls and answers per function, checked on all paths by variant case split; arithmetic of results evaluated symbolically on sample values; a subtraction of clock readings must saturate or be guarded."),
dict(id="B09", title="Logs and panics are shown whole at their level, and all starts set up",
 statement="The logger and the panic hook are installed once, before the application's function runs. Every record that is let through is written exactly once to the console method of its level (trace: debug, debug: log, info: info, warn: warn, error: error) with its level, place and message, and one style for each style mark. Debug and above are let through. A panic's whole message is shown, and so is a failure to install the logger. The node the application returns is the one that is shown. A websocket message is sent whole on the connection it was given to; the handler of plain responses is kept.",
 over=["inputs"], q="every record, panic message and application",
 why="Tests run outside the browser: the console, the panic hook and the start of an application are not reached.",
 files=[M+"init_env.rs", A+"panic_message.rs", "crates/vertigo/src/lib.rs"], mech=[("logger and hook", M+"init_env.rs"), ("panic message", A+"panic_message.rs"), ("start", "crates/vertigo/src/lib.rs")],
 decide="All paths of the logger by level down to the call of JavaScript; the closures given to the once cell and to the panic hook are analysed with their captures; order of calls on all paths of the start function."),
]
