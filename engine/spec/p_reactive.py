C = "crates/vertigo/src/computed/"
PROPS = [
dict(id="R01", title="Nested transactions propagate once, at the outermost end",
 statement="Updates made inside a transaction, including inside any nesting of transactions, refresh their dependent subscriptions only when the outermost transaction ends, each affected subscription exactly once, after which end-of-transaction hooks run once with the graph idle again. Leaving a nested transaction refreshes nothing and loses no pending subscription. The transaction returns the value its body returned.",
 over=["histories", "programs"], q="every nesting depth, every set of values changed, every interleaving of enter/leave/change calls",
 why="Tests try one or two nestings with one or two subscribers; the claim is about every depth and every pending set.",
 files=[C+"dependencies/mod.rs", C+"dependencies/transaction_state.rs", C+"dependencies/refresh.rs"],
 mech=[("transaction", C+"dependencies/mod.rs"), ("level counter and pending set", C+"dependencies/transaction_state.rs")],
 decide="Path-sensitive dataflow over `Dependencies::transaction` with the state machine inlined: for each entry state (idle / level n / refreshing) the sequence of state stores, user-body call, refresh calls and end hooks is compared with the specification; guard terms over the level are evaluated for n=1,2,3,9 to tell outermost from nested leaves; the refresh loop is shown to have no iteration that skips the call."),
dict(id="R02", title="A changed value invalidates everything derived from it",
 statement="When a value's content changes, every computed that depends on it directly or through any chain of computeds drops its cached result and every live subscription depending on it is queued for refresh. A computed returns a cached result only if it still holds one; otherwise it is computed exactly once, its newly read dependencies replace the old ones, and the fresh result is both kept and returned.",
 over=["programs", "histories"], q="every dependency graph shape and every sequence of changes and reads",
 why="Tests use graphs of depth 1-3; a missing edge in the traversal only shows on particular shapes.",
 files=[C+"dependencies/mod.rs", C+"dependencies/graph_connections.rs", C+"graph_value.rs", C+"dependencies/refresh.rs"],
 mech=[("report of a change", C+"dependencies/mod.rs"), ("transitive dependants", C+"dependencies/graph_connections.rs"), ("cached node", C+"graph_value.rs")],
 decide="Worklist-completeness rule on the transitive-dependants traversal (every child is collected and pushed unless already collected, the loop ends only on an empty worklist), must-handle rule on every dependant kind in the change report, store/call ordering on the cached-read / recompute / invalidate paths."),
dict(id="R03", title="Source values cannot change while the graph is refreshing",
 statement="While dependent subscriptions are being refreshed, an attempt to start a transaction (and therefore to change any value) is refused with a panic before any user code runs or any content changes. Every write to a value's content happens inside a transaction.",
 over=["histories", "programs"], q="every program that changes values from computed functions, subscriptions or render functions",
 why="Only particular re-entrancies reach the refreshing state; tests exercise none of the write paths from it.",
 files=[C+"dependencies/transaction_state.rs", C+"value.rs"],
 mech=[("refreshing state", C+"dependencies/transaction_state.rs"), ("write paths", C+"value.rs")],
 decide="Typestate: every path entering `transaction` in the refreshing state ends in a panic with no user call and no store; every body that stores into a value's content cell (found by type, not by name) is shown to do it at transaction depth >= 1 on all paths."),
dict(id="R04", title="Dependency edges stay symmetric and are released in cascade",
 statement="The graph records each dependency in both directions or in neither; when a computation's dependencies change, exactly the newly read ones are added and exactly the no longer read ones removed. When a node loses its last dependant, it releases its own dependencies, transitively, its cached result is dropped, and a connected value is disconnected; a node is active exactly while it has dependants.",
 over=["histories", "programs"], q="every sequence of dependency-set changes on every graph",
 why="Asymmetric or leaked edges are invisible until a specific later change; tests check counts on a few graphs.",
 files=[C+"dependencies/graph_connections.rs", C+"dependencies/graph_one_to_many.rs", C+"dependencies/graph.rs"],
 mech=[("edge commands", C+"dependencies/graph_connections.rs"), ("one-to-many map", C+"dependencies/graph_one_to_many.rs"), ("reaction to activity", C+"dependencies/graph.rs")],
 decide="Per-path effect comparison of the edge commands with their mirror images, provenance of the elements of the produced command lists (set difference in the right direction, all grand-parents of a childless parent), fixpoint-loop exit condition, activity = non-empty children."),
dict(id="R05", title="Dropping a handle removes exactly its own registration",
 statement="Dropping a subscription handle, a computed node or an event-listener handle removes that registration and no other: afterwards it is never invoked again, holds no dependencies and is not kept alive by the graph. A cleanup action attached to a handle runs exactly once.",
 over=["histories", "programs"], q="every order of creating and dropping handles",
 why="A leaked or over-eager removal shows only after specific drop orders that no test performs.",
 files=[C+"graph_value.rs", C+"drop_resource.rs", C+"computed_box.rs", C+"dependencies/refresh.rs", "crates/vertigo/src/driver_module/event_emitter.rs"],
 mech=[("node drop", C+"graph_value.rs"), ("cleanup handle", C+"drop_resource.rs"), ("listener registry", "crates/vertigo/src/driver_module/event_emitter.rs")],
 decide="Add/remove pairing: the id in each removal on each drop path is the id of the registration; ownership: the returned handle contains the node, the registry entry holds it only through a weak handle; take-before-run on the cleanup action."),
dict(id="R06", title="Connected values connect on first reader, disconnect on last",
 statement="A value connected to a generator runs its connect function only when it becomes active, never while it is already connected, keeps the returned resource exactly until it becomes inactive and then releases it. The connector is filed under that value's identity and is forgotten when the value is dropped; it does not itself keep the value alive.",
 over=["histories", "programs"], q="every sequence of readers appearing and disappearing",
 why="Needs particular histories of subscribing, switching branches and dropping; one test covers a single connect/disconnect.",
 files=[C+"dependencies/external_connections.rs", C+"value.rs"],
 mech=[("connection table", C+"dependencies/external_connections.rs"), ("connected value", C+"value.rs")],
 decide="Path enumeration of the connection switch (flag x already-connected x has-connector) against the specified effects; capture-type analysis of the registered connector (no owning capture of the value whose drop removes it)."),
dict(id="R07", title="Every write to a value is stored and announced together",
 statement="Every way of writing a reactive value stores exactly the given (or mutated) content and announces the change for that same value within the same transaction. The comparing variant announces exactly when the new content differs from the old; the in-place variant runs the mutation once and writes the result back.",
 over=["inputs", "programs"], q="every value type, content and write entry point (inherent and trait)",
 why="Tests exercise `set` mostly; an unannounced write on another entry point goes unnoticed until something depends on it.",
 files=[C+"value.rs", C+"reactive.rs", C+"struct_mut/value_mut.rs"],
 mech=[("write entry points", C+"value.rs"), ("trait delegation", C+"reactive.rs")],
 decide="All-paths effect rule over every write entry point, found by which bodies touch the content cell: store implies report of the same node's id at depth >= 1 unless equality was established on that path."),
dict(id="R08", title="Every read in a computation is a recorded dependency",
 statement="Reading a value or computed through a computation's context always records it as a dependency of that computation, and all recorded dependencies of a run become the node's dependencies. Derived computeds built by the library read their sources through the context they are given.",
 over=["programs"], q="every computation, every read, cached or not",
 why="A read that is not recorded only shows as a stale value after a later change of exactly that source.",
 files=[C+"value.rs", C+"graph_value.rs", C+"context.rs", C+"computed_box.rs"],
 mech=[("read paths", C+"value.rs"), ("context", C+"context.rs")],
 decide="Must-call analysis: every returning path of every read entry point records the node's id in the given context before returning; a sweep over all library closures that receive a context checks that reads inside them use that context."),
dict(id="R09", title="Subscriptions fire at once and then only when they should",
 statement="A subscription runs its callback once immediately and then on each refresh: the comparing form exactly when the observed value differs from the last one it reported, the other form on every refresh. The callback receives the freshly read value, and what it returned is kept until the next run replaces it.",
 over=["histories", "inputs"], q="every sequence of observed values",
 why="Depends on the history of observed values; tests use short sequences.",
 files=[C+"computed_box.rs"],
 mech=[("subscribe / subscribe_all", C+"computed_box.rs")],
 decide="Path enumeration of the subscription body: callback iff inequality with the remembered value, remembered value updated, result stored; the constructor registers a client node and runs it once."),
dict(id="R11", title="Auto-created map entries are created once per key",
 statement="Looking a key up in an auto-creating map returns the stored entry if there is one and otherwise creates it exactly once with that key, stores it and returns the same entry. Entries are never evicted and clones share the same entries.",
 over=["histories", "inputs"], q="every sequence of lookups on every key set, including through clones",
 why="Identity of cached entries over histories is not observable from a few lookups.",
 files=[C+"auto_map.rs"], mech=[("auto map", C+"auto_map.rs")],
 decide="Path enumeration of the lookup (hit: no creation and no store; miss: one creation, one store under the same key, same term returned); absence of any eviction call; field identity in clone."),
dict(id="R12", title="No callback runs while reactive bookkeeping is borrowed",
 statement="Application callbacks (computations, subscriptions, connectors, creators, event listeners) are never invoked while the reactive core holds a borrow into the bookkeeping collection they were taken from, so a callback may freely register, remove, read or trigger again. Interior-mutability containers never hand out references to their contents.",
 over=["programs", "histories"], q="every re-entrant use of the reactive API from a callback",
 why="Re-entrancy corrupts memory silently (unchecked interior mutability); tests use non re-entrant callbacks.",
 files=[C+"struct_mut", C+"dependencies", "crates/vertigo/src/driver_module/event_emitter.rs", "crates/vertigo/src/driver_module/api/callbacks.rs"],
 mech=[("interior-mutability cells", C+"struct_mut"), ("listener trigger", "crates/vertigo/src/driver_module/event_emitter.rs")],
 decide="Effect analysis over the call graph: no closure passed to a cell method in the reactive core reaches a dynamic or caller-supplied closure call (including through drop glue); no public cell method returns a reference."),
dict(id="R13", title="Copies are the same thing, and equality says when things are the same",
 statement="A copy of a value, computed, cache, router, connection or node reference stands for the same one: what is done through one is seen through all, and copying changes nothing. Two values, computeds, caches or references are equal exactly if they are the same one, whatever they contain; data (JSON, messages, styles, requests, commands of the page) are equal exactly if they are of one kind with equal parts. A new one has an id that none had before; ids order things by kind and age, and what is equal has one hash.",
 over=["inputs", "histories"], q="every pair of handles or data and every use of a copy",
 why="Equality decides what is sent on, cached and redrawn; a part left out of a comparison, or a copy with a state of its own, shows only when just that part differs.",
 files=["crates/vertigo/src/computed/value.rs", "crates/vertigo/src/computed/computed_box.rs", "crates/vertigo/src/computed/graph_id.rs", "crates/vertigo/src/computed/auto_map.rs", "crates/vertigo/src/fetch/lazy_cache.rs", "crates/vertigo/src/router.rs", "crates/vertigo/src/driver_module/js_value/js_value_struct.rs", "crates/vertigo-cli/src/serve/html/dom_command.rs"],
 mech=[("identity of nodes", "crates/vertigo/src/computed/graph_id.rs"), ("handles", "crates/vertigo/src/computed/computed_box.rs"), ("messages", "crates/vertigo/src/driver_module/js_value/js_value_struct.rs")],
 decide="All paths of every implementation of copying, equality, order and hash of a type of the two crates, derived or not (inventory from the type-checked program): a copy must be its source taken apart and put together part by part; each comparison must be of the same part of both sides; equal is answered only when every part (or, for handles, the id) has been found equal, unequal only when some part differs; order compares first with second."),
dict(id="R14", title="A view made from a source always has the content of that source",
 statement="Mapping a value or a computed gives a computed whose content is the given function applied once to the current content. Converting a value, a computed, a cache, a router, a resource or a plain value to a computed gives one with exactly that content. A resource keeps its state (loading, ready, error with its message) when mapped, copied or passed through `?`, which goes on only when it is ready. The generic interface of a value reads, writes and changes that value. A resource fetched from an address asks for base and path joined, and only status 200 is an answer.",
 over=["inputs"], q="every source, content and function",
 why="The conversions are generic and composed freely; tests use a few of them with one type each.",
 files=["crates/vertigo/src/computed/value.rs", "crates/vertigo/src/computed/computed_box.rs", "crates/vertigo/src/fetch/resource.rs", "crates/vertigo/src/fetch/lazy_cache.rs"],
 mech=[("value", "crates/vertigo/src/computed/value.rs"), ("computed", "crates/vertigo/src/computed/computed_box.rs"), ("resource", "crates/vertigo/src/fetch/resource.rs"), ("cache", "crates/vertigo/src/fetch/lazy_cache.rs")],
 decide="Denotation of the returned computed: its closure is analysed with its captures, following chains of computeds down to the one read of the source; result terms compared by identity. Case split over the states of a resource."),
]
