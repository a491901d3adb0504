D = "crates/vertigo-cli/src/"
PROPS = [
dict(id="F01", title="A build leaves exactly the application just compiled in its directory",
 statement="Building compiles the package asked for (or the workspace's application) for the browser with the public path given, empties the destination directory and leaves there the application just compiled (optimised unless that is disabled or the optimiser fails, in which case the plain one), the starting script, every file the compilation included, and an index naming script and application below the public path. Names carry a hash of the whole content, so changed content has a changed name. Whatever fails before that is an error and nothing is reported as built.",
 over=["configurations", "faults"], q="every option, target directory and outcome of each step",
 why="A stale or mismatched file appears only with an old build in place, a failing optimiser or another target directory; no test builds anything.",
 files=[D+"build/build_run.rs", D+"build/cargo_build.rs", D+"build/find_target.rs", D+"build/wasm_path.rs", D+"build/wasm_opt.rs", D+"build/build_opts.rs"], mech=[("build", D+"build/build_run.rs"), ("compiling", D+"build/cargo_build.rs"), ("saving under a hash", D+"build/wasm_path.rs")],
 decide="All paths of the build with every file operation as an event: order of emptying, compiling and writing, the origin of each written content traced through reads, path arithmetic normalised to pieces and compared with where the compiler is told to put its results, the loop over included files complete, and no write on a path with a failed step."),
dict(id="F02", title="A new project is the whole template under its name, and nothing is overwritten",
 statement="Creating a project refuses a directory that already has content without touching it; otherwise the directory is created below the destination, the whole template is unpacked there, and its manifest is written with the package name given in place of the template's. Success is reported only if every step succeeded.",
 over=["inputs", "faults"], q="every name, destination and failing step",
 why="Needs a used directory or a failing file operation; there is no test of the command.",
 files=[D+"new/mod.rs"], mech=[("new", D+"new/mod.rs"), ("template", D+"new/template/Cargo.toml_")],
 decide="All paths with file operations as events: no write on the path with a used directory, Err right after the first failed step, Ok only with all steps done in order on the normalised paths, and the replaced text compared with the template's manifest."),
dict(id="F03", title="Programs are run with their parameters and environment, and failures count",
 statement="A command is started as the program and words given, with every parameter added in order, its environment entries and directory; a failure of the program ends the tool unless it was allowed, and its status and output are what the caller gets. A build goes on without adding the browser target only if the installed targets include it.",
 over=["inputs", "faults"], q="every command, parameter list and exit status",
 why="A failure taken for success shows only when a program fails.",
 files=[D+"commons/command.rs", D+"build/check_env.rs"], mech=[("commands", D+"commons/command.rs"), ("target", D+"build/check_env.rs")],
 decide="Path summaries of the command builder (pushes in order, inserts), complete iteration over the environment, the branch conditions under which the status function returns, and that each way of running looks at the status of its own output."),
dict(id="F04", title="Watching rebuilds after every change and tells the page what it is looking at",
 statement="While watching, a change below the package or an added path, other than below the package's target and destination directories, starts a new build, also if it happens during a build; the build before it is stopped first. Pages listening at the watch port hear that a build runs, that it failed, or, once the new server answers at its port, its version, which differs for every build, so that an open page reloads; a page always hears the newest status and is woken for each change. A failed build is not served. An unknown package or a watcher that cannot start is an error.",
 over=["histories", "schedules"], q="every sequence of changes, builds and connections",
 why="A lost wake-up, a stale version or a build that is not stopped depends on when a change arrives; the watch command has no tests.",
 files=[D+"watch/watch_run.rs", D+"watch/sse.rs", D+"commons/spawn.rs", D+"watch/watch_opts.rs", D+"serve/watch.js"], mech=[("turns", D+"watch/watch_run.rs"), ("status stream", D+"watch/sse.rs"), ("tasks", D+"commons/spawn.rs")],
 decide="The coroutine's paths with awaits as events must repeat tell, build, wait, stop on the same channel and task, with a version term that grows; the watcher's closure is entered with an arbitrary event and its path test evaluated; the build task per outcome; the status stream per state (Pending only when armed and unchanged); words sent compared with those the page's script tests for.",
 note="That inotify reports a change, and that a queue overflow is noticed, is outside the source."),
dict(id="F05", title="Options mean what they say and the package is the workspace's application",
 statement="A key=value option is split at its first equals sign, and one without is refused. Each command runs with its own options; watching passes the build and serve options on unchanged. Without a package name the first workspace member with a cdylib target is built, a package's directory is that of its manifest, and only packages outside the workspace are left out.",
 over=["inputs", "configurations"], q="every option text and workspace",
 why="Values containing equals signs and workspaces with several members are not in any test.",
 files=[D+"commons/parse_key_val.rs", D+"watch/watch_opts.rs", D+"main.rs", D+"build/cargo_workspace.rs"], mech=[("key=value", D+"commons/parse_key_val.rs"), ("workspace", D+"build/cargo_workspace.rs"), ("commands", D+"main.rs")],
 decide="Path summaries with slices resolved to sides of the first equals sign, field-by-field copies, the variant of the command against the function run, and predicates of the searches evaluated on an arbitrary element."),
]
