"""The command line tool: building, creating, running commands, watching, options."""
import re
from ..core import check, Anchor
from ..q import *
from ..term import T, show
from .reactive import opq, anyb
from .ssr import U, arun, crun, plain, outcome, flat, text, joined, path_pieces, turns, sliced

C = "vertigo_cli::"
FSW = [r"WasmPath::\w+$", r"check_env$", r"run_cargo_build$", r"run_wasm_opt$", r"std::fs::\w+$", r"serde_json::\w+$", r"str::replace$", r"find_\w+_in_target$", r"get_hash$", r"BuildOpts::\w+$", r"CommandRun::\w+$", r"process::\w+$",
       r"File::\w+$", r"Write::\w+$", r"(process::)?Command::\w+$", r"Path\w*::push$", r"Dir::\w+$", r"ExitStatus::\w+$", "extract$", "write_all$", r"Digest::\w+$", r"HashMap::\w+$", r"Vec::\w+$"]
WP = C + "build::wasm_path::WasmPath::"
WRITES = r"::(save|save_with_hash)$|fs::(write|copy|rename)$|File::create$"


def wpath(t):
    """the path a WasmPath stands for"""
    return afields(t).get("path", t) if agg_of(t, "WasmPath") else t


def lossy(t):
    """drop conversions between kinds of paths and texts"""
    while True:
        u = plain(t)
        if u.op == "call" and re.search(r"(OsStr|Path|String|Cow|OsString|PathBuf)(<[^>]*>)?::(to_string_lossy|into_owned|to_str|as_os_str|from_utf8_lossy|to_path_buf|as_path|display|new|from|as_ref)$", u.a[0]) and len(u.a) == 3:
            u = u.a[2]
        if u is t:
            return t
        t = u


def joinp(t):
    """the pieces of a path below a directory: constant texts are taken apart at slashes"""
    t = lossy(wpath(t))
    if t.op == "call" and re.search(r"Path(Buf)?::(join|push)$", t.a[0]):
        return joinp(t.a[2]) + joinp(t.a[3])
    if t.op == "fmt":
        parts = flat(t)
    elif t.op == "call" and re.search(r"::(concat|join)$", t.a[0]) and t.a[2].op == "agg":
        sep = flat(t.a[3]) if t.a[0].endswith("join") and len(t.a) > 3 else []
        parts = []
        for i, x in enumerate(t.a[2].a[3:]):
            parts += (sep if i else []) + flat(x)
    else:
        parts = [t.a[0]] if t.op == "c" else [t]
    # split at slashes, keeping terms
    out, cur = [], []
    for x in parts:
        if isinstance(x, str):
            bits = x.split("/")
            for k, b in enumerate(bits):
                if k:
                    out.append(tuple(cur))
                    cur = []
                if b:
                    cur.append(b)
        else:
            cur.append(lossy(x) if x.__class__ is T else x)
    out.append(tuple(cur))
    return [x[0] if len(x) == 1 else x for x in out if x]


# ------------------------------------------------------------------ F01
BO = opq(r"WasmPath::(remove_\w+|create_\w+|save|save_with_hash|read)$|check_env$|run_cargo_build$|run_wasm_opt$|infer_package_name$|BuildOpts::new_path_in_static_\w+$|find_\w+_in_target$")


def made(t):
    """the pieces of a file in the destination directory"""
    t = wpath(t)
    if t.op == "call" and t.a[0].endswith("new_path_in_static_make") and t.a[3].op == "agg":
        return [plain(x).a[0] if plain(x).op == "c" else plain(x) for x in t.a[3].a[3:]]
    if t.op == "call" and t.a[0].endswith("new_path_in_static_from"):
        return [T("name of", wpath(t.a[3]))]
    return None


def saved_files(cx, M, unit):
    """reading and writing files, and names with the hash of their content; the module exists in the tool and in the macros"""
    # names change with the content
    W = M + "WasmPath::save_with_hash"
    slf, content = T("f", T("param", "self"), "path"), T("param", "content")
    for p in cx.run(W, FSW, unit=unit, branches=anyb, opaque=opq(r"WasmPath::save$|get_hash$")):
        sv, h = calls(p, r"WasmPath::save$"), calls(p, r"get_hash$")
        if not cx.ob("saved-once", W, p.end == "ret" and len(sv) == 1 and len(h) == 1 and h[0].args[0] is content and sv[0].args[1] is content, desc(p)):
            continue
        nm = [lossy(x) if x.__class__ is T else x for x in joined(p, plain(p.ret))]
        stem, ext = [T("vf", x, "Some", "0") for e in p.ret.subs() for x in [e] if x.op == "call" and x.a[0].endswith("Path::file_stem")], [T("vf", x, "Some", "0") for x in p.ret.subs() if x.op == "call" and x.a[0].endswith("Path::extension")]
        ok = len(stem) == len(ext) == 1 and nm == [stem[0], ".", h[0].res, ".", ext[0]] and stem[0].a[0].a[2] is slf and ext[0].a[0].a[2] is slf
        cx.ob("name-has-the-hash-of-the-content", W, ok, show(p.ret)[:250])
        to = wpath(sv[0].args[0])
        ok = to.op == "call" and (to.a[0].endswith("Path::join") and to.a[2].op == "vf" and to.a[2].a[0].op == "call" and to.a[2].a[0].a[0].endswith("Path::parent") and to.a[2].a[0].a[2] is slf or to.a[0].endswith("Path::with_file_name") and to.a[2] is slf)
        cx.ob("saved-beside-under-that-name", W, bool(ok) and plain(to.a[3]) is plain(p.ret), show(to)[:250])
    W = M + "get_hash"
    for p in cx.run(W, FSW + [r"Digest::\w+$", r"::encode\w*$", r"::checksum$", r"Hasher::\w+$"], unit=unit, branches=anyb):
        fed = [e for e in p.trace if e.kind == "call" and e.args[1:] and e.args[1].has(T("param", "data"))]
        direct = p.ret.has(T("param", "data"))
        ok = p.end == "ret" and (len(fed) == 1 and fed[0].args[1] is T("param", "data") and (p.ret.has(fed[0].args[0]) or p.ret.has(fed[0].res)) or not fed and direct) and not brs(p)
        cx.ob("hash-is-of-the-whole-content", W, ok, desc(p))
        narrow = [x for x in p.ret.subs() if x.op == "cast" and re.search(r"^u(8|16)$|^u32$", str(x.a[2]))] + [x for x in p.ret.subs() if x.op == "call" and re.search(r"::index$|::(take|truncate|get)$", x.a[0])]
        cx.ob("whole-hash-is-used", W, not narrow, show(p.ret))
    # files
    W = M + "WasmPath::save"
    for p in cx.run(W, FSW, unit=unit, branches=anyb):
        cr, wr = calls(p, r"File::create$"), calls(p, r"write_all$")
        fw = calls(p, r"fs::write$")
        ok = len(cr) == len(wr) == 1 and cr[0].args[0] is slf and wr[0].args[0] is T("vf", cr[0].res, "Ok", "0") and plain(wr[0].args[1]) is content and [outcome(p, i) for i, e in ncalls(p, "write_all$")] == ["Ok"]
        ok = ok or len(fw) == 1 and not cr and fw[0].args[0] is slf and plain(fw[0].args[1]) is content and [outcome(p, i) for i, e in ncalls(p, r"fs::write$")] == ["Ok"]
        cx.ob("whole-content-is-saved", W, p.end == "ret" and ok, desc(p))
    W = M + "WasmPath::read"
    for p in cx.run(W, FSW, unit=unit, branches=anyb):
        r = calls(p, r"fs::read$")
        cx.ob("whole-content-is-read", W, p.end == "ret" and len(r) == 1 and r[0].args[0] is slf and p.ret is T("vf", r[0].res, "Ok", "0"), desc(p))


@check("F01", (U,))
def f01(cx):
    W = C + "build::build_run::run_with_ws"
    opts, ws = T("param", "opts"), T("param", "ws")
    inner = T("f", opts, "inner")
    dest = T("f", T("f", opts, "common"), "dest_dir")
    seen = set()
    for p in cx.run(W, FSW, unit=U, branches=anyb, opaque=BO):
        if not cx.ob("building-ends", W, p.end == "ret", desc(p)):
            continue
        cb = ncalls(p, r"run_cargo_build$")
        ok = agg_of(p.ret, "Result", "Ok")
        writes = [(i, e) for i, e in enumerate(p.trace) if e.kind == "call" and re.search(WRITES, e.name)]
        bad = [i for i, e in enumerate(p.trace) if e.kind == "call" and re.search(r"check_env$|run_cargo_build$", e.name) and outcome(p, i) == "Err"]
        if bad or not cb:
            seen.add("failed")
            cx.ob("failed-build-is-an-error", W, agg_of(p.ret, "Result", "Err") is not None and agg_of(p.ret, "Result", "Err") and not writes, desc(p))
            continue
        seen.add("built")
        cx.ob("build-succeeds", W, ok, desc(p))
        if not cx.ob("compiled-once", W, len(cb) == 1, desc(p)):
            continue
        ci, c = cb[0]
        pk = plain(c.args[0])
        given = T("vf", T("f", inner, "package_name"), "Some", "0")
        cx.ob("package-is-the-one-asked-for", W, (pk is given or pk.op == "vf" and pk.a[0].op == "call" and pk.a[0].a[0].endswith("infer_package_name")
              and any(t is T("f", inner, "package_name") and w == "None" for t, w, h in variants_on(p, "Option"))) and plain(c.args[1]) is T("f", inner, "public_path") and c.args[2] is ws, desc(p))
        out = T("vf", c.res, "Ok", "0")
        # order
        rd = [i for i, e in ncalls(p, r"remove_dir_all$") if lossy(wpath(e.args[0])) is dest]
        cd = [i for i, e in ncalls(p, r"create_dir_all$") if lossy(wpath(e.args[0])) is dest]
        cx.ob("destination-starts-empty", W, len(rd) == len(cd) == 1 and rd[0] < cd[0] and all(cd[0] < i for i, e in writes), desc(p))
        rl = [i for i, e in ncalls(p, r"remove_file$") if wpath(e.args[0]).op == "call" and wpath(e.args[0]).a[0].endswith("find_package_rlib_in_target") and plain(wpath(e.args[0]).a[2]) is pk]
        cx.ob("package-is-compiled-anew", W, bool(rl) and rl[0] < ci, desc(p))
        # the script
        st = []
        src = lambda e: [x for x in e.args[1].subs() if x.op == "call" and re.search(r"fs::(read|read_to_string)$", x.a[0])]
        js = [e for i, e in writes if e.name.endswith("save_with_hash") and made(e.args[0]) == ["wasm_run.js"]]
        ok = len(js) == 1 and len(src(js[0])) == 1 and joinp(src(js[0])[0].a[2]) == [out, "static", "wasm_run.js"] and plain(js[0].args[1]) is T("vf", src(js[0])[0], "Ok", "0")
        cx.ob("script-of-the-compiled-version", W, ok, desc(p))
        # the application
        fw = [e for e in calls(p, r"find_wasm_in_target$") if plain(e.args[0]) is pk and e.args[1] is ws]
        ww = [(i, e) for i, e in writes if e.name.endswith("save_with_hash") and made(e.args[0]) != ["wasm_run.js"]]
        if not cx.ob("application-just-compiled", W, len(fw) >= 1 and len(ww) == 1, desc(p)):
            continue
        wasm = fw[0].res
        same = [e.res for e in fw]
        wi, w = ww[0]
        cx.ob("application-keeps-its-name", W, (made(w.args[0]) or [None])[0] in [T("name of", x) for x in same], show(w.args[0])[:200])
        opt = [(i, e) for i, e in ncalls(p, r"run_wasm_opt$")]
        got = w.args[1]
        rdw = [x for x in got.subs() if x.op == "call" and x.a[0].endswith("WasmPath::read")]
        flag = [b.args[1] for b in brs(p) if b.args[0] is T("f", inner, "disable_wasm_opt")]
        succ = [b.args[1] == 1 for i, e in opt for b in brs(p) if b.args[0] is e.res]
        off = any(flag)
        cx.ob("optimised-unless-disabled", W, not opt if off else len(opt) == 1 and ci < opt[0][0] < wi and wpath(opt[0][1].args[0]) in same and made(opt[0][1].args[1]) == made(w.args[0]), desc(p))
        if len(rdw) == 1:
            good = set(succ) == {True}
            seen.add("optimised" if good else "plain")
            cx.ob("application-just-compiled", W, plain(got) is rdw[0] and (made(rdw[0].a[2]) == made(w.args[0]) if good else wpath(rdw[0].a[2]) in same), show(got)[:200])
        else:
            cx.ob("application-just-compiled", W, False, show(got)[:200])
        # the index
        ix = [(i, e) for i, e in writes if made(e.args[0]) == ["index.json"]]
        if cx.ob("index-is-written", W, len(ix) == 1, desc(p)):
            m = [x for x in ix[0][1].args[1].subs() if agg_of(x, "IndexModel")]
            ser = [x for x in ix[0][1].args[1].subs() if x.op == "call" and re.search(r"serde_json::to_\w+$", x.a[0])]
            if cx.ob("index-is-written", W, len(m) == 1 and len(ser) == 1 and ser[0].a[2] is m[0], show(ix[0][1].args[1])[:200]):
                f = afields(m[0])
                pub = T("f", inner, "public_path")
                cx.ob("index-names-the-script", W, bool(js) and joined(p, plain(f["run_js"])) == [pub, "/", js[0].res], show(f["run_js"])[:200])
                cx.ob("index-names-the-application", W, joined(p, plain(f["wasm"])) == [pub, "/", w.res], show(f["wasm"])[:200])
        # static files
        dirs = [(i, e) for i, e in ncalls(p, r"fs::read_dir$") if joinp(e.args[0]) == [out, "static", "included"]]
        if cx.ob("included-files-are-looked-for", W, len(dirs) == 1, desc(p)):
            i, e = dirs[0]
            if outcome(p, i) == "Ok":
                d = T("vf", e.res, "Ok", "0")
                cx.ob("every-included-file-is-copied", W, finished(p, lambda x: x.has(d)), desc(p))
                it = T("item", d)
                turned, now = 0, False
                for b in brs(p):
                    x = b.args[0].a[0] if b.args[0].op == "discr" else T("none")
                    if x.op == "next" and x.has(d):
                        turned, now = turned + (b.args[1] == "Some"), b.args[1] == "Some"
                    elif now and x.op == "item" and x.has(d):
                        turned, now = turned - (b.args[1] == "Err"), False
                cps = []
                for k, x in writes:
                    if x.name.endswith("WasmPath::save") and any(y.op == "item" and y.has(d) for y in x.args[1].subs()):
                        s = [y for y in x.args[1].subs() if y.op == "call" and y.a[0].endswith("::read")]
                        fr = wpath(s[0].a[2]) if len(s) == 1 else None
                        good = fr is not None and plain(x.args[1]) is s[0] and fr.op == "call" and fr.a[0].endswith("DirEntry::path") and (fr.a[2] is T("vf", it, "Ok", "0") or fr.a[2].op == "item" and fr.a[2].has(d)) and made(x.args[0]) == [T("name of", fr)]
                        cps.append(good)
                cx.ob("every-included-file-is-copied", W, len(cps) == turned and all(cps), desc(p))
                if turned:
                    seen.add("included")
    cx.ob("all-cases", W, seen == {"failed", "built", "optimised", "plain", "included"}, str(seen))
    # compiling
    W = C + "build::cargo_build::run_cargo_build"
    pk, ws = T("param", "package_name"), T("param", "ws")
    dirs = set()
    seen = set()
    for p in cx.run(W, FSW, unit=U, branches=anyb, opaque=opq(r"CommandRun::\w+$")):
        run = calls(p, r"CommandRun::(output_with_status|output|run)$")
        if not cx.ob("compiled-once", W, p.end == "ret" and len(run) == 1, desc(p)):
            continue
        t, ps_, env, allowed = run[0].args[0], [], {}, False
        while t.op == "call" and "CommandRun::" in t.a[0]:
            l = t.a[0].rsplit("::", 1)[-1]
            if l == "add_param":
                ps_.insert(0, "".join(str(x) if isinstance(x, str) else show(x) for x in joined(p, plain(t.a[3]))))
            elif l == "env":
                env[plain(t.a[3]).a[0]] = plain(t.a[4])
            elif l == "error_allowed":
                allowed = is_const(t.a[3], 1)
            elif l == "new":
                ps_[0:0] = str(plain(t.a[2]).a[0]).split()
            t = t.a[2]
        ok = ps_[:2] == ["cargo", "build"] and "--release" in ps_ and "--package" in ps_ and ps_[ps_.index("--package") + 1:][:1] == [show(pk)] and "--target" in ps_ and ps_[ps_.index("--target") + 1:][:1] == ["wasm32-unknown-unknown"]
        cx.ob("compiles-the-package-for-the-browser", W, ok, " ".join(ps_))
        cx.ob("compiled-with-the-public-path", W, env.get("VERTIGO_PUBLIC_PATH") is T("param", "public_path"), str(sorted(env)))
        succ = [b.args[1] for b in brs(p) if b.args[0].op == "call" and b.args[0].a[0].endswith("ExitStatus::success") and b.args[0].has(run[0].res)]
        if agg_of(p.ret, "Result", "Ok"):
            seen.add("ok")
            cx.ob("success-only-if-the-compiler-succeeded", W, succ == [1], desc(p))
            dirs.add(tuple(map(str, joinp(p.ret.a[3]) + [y for e in calls(p, r"PathBuf::push$") if e.args[0] is p.ret.a[3] for y in joinp(e.args[1])])))
        else:
            seen.add("failed")
            cx.ob("failed-build-is-an-error", W, succ == [0] and allowed, desc(p))
    cx.ob("all-cases", W, seen == {"ok", "failed"}, str(seen))
    # where the results are
    base = ["wasm32-unknown-unknown", "release"]
    for n, rest in (("find_wasm_in_target", lambda u: [(u, ".wasm")]), ("find_package_rlib_in_target", lambda u: ["deps", ("lib", u, ".rlib")])):
        W = C + "build::find_target::" + n
        for p in cx.run(W, FSW, unit=U, branches=anyb):
            j = joinp(p.ret) if p.end == "ret" else []
            u = [x for e in j for x in (e if isinstance(e, tuple) else (e,)) if x.__class__ is T and x.op == "call" and x.a[0].endswith("str::replace")]
            ok = len(u) == 1 and plain(u[0].a[2]) is pk and u[0].a[3].op == "c" and u[0].a[3].a[0] in (45, "-") and u[0].a[4].op == "c" and u[0].a[4].a[0] in ("_", 95)
            d = T("f", ws, "target_directory")
            cx.ob("result-is-where-the-compiler-puts-it", W, ok and j == [d] + base + rest(u[0]) and dirs == {tuple(map(str, [d] + base))}, show(p.ret)[:250])
    saved_files(cx, C + "build::wasm_path::", U)
    slf = T("f", T("param", "self"), "path")
    W = WP + "remove_dir_all"
    for p in cx.run(W, FSW, unit=U, branches=anyb):
        r = ncalls(p, r"fs::remove_dir_all$")
        ok = p.end == "ret" and len(r) == 1 and r[0][1].args[0] is slf
        if ok and outcome(p, r[0][0]) == "Err":
            k = [b for b in brs(p) if b.args[0].op == "bin" and any(x.op == "agg" and x.a[1] == "NotFound" for x in b.args[0].subs())] + [b for b in brs(p) if b.args[0].op == "discr" and b.args[1] == "NotFound"]
            ok = bool(k) and (k[0].args[1] == (0 if k[0].args[0].a[0] == "Ne" else 1) if k[0].args[0].op == "bin" else k[0].name == "=")
        cx.ob("what-cannot-be-removed-stops-the-build", W, ok, desc(p))
    W = WP + "remove_file"
    for p in cx.run(W, FSW + ["exists$"], unit=U, branches=anyb):
        r = ncalls(p, r"fs::remove_file$")
        there = [b.args[1] for b in brs(p) if b.args[0].op == "call" and b.args[0].a[0].endswith("Path::exists")]
        ok = p.end == "ret" and (len(r) == 1 and r[0][1].args[0] is slf and outcome(p, r[0][0]) == "Ok" if there[:1] == [1] or not there else not r)
        cx.ob("old-file-is-removed", W, ok, desc(p))
    W = C + "build::build_opts::BuildOpts::new_path_in_static_make"
    n = 0
    for p in cx.run(W, FSW, unit=U, branches=anyb, carries=True):
        pu = calls(p, r"PathBuf::push$")
        src = T("param", "path")
        at = [p.ret] if p.end == "ret" else []
        if at and at[0].op == "loop":
            at = turns(p, p.ret)[0]
        base = len(at) == 1 and lossy(wpath(at[0])) is T("f", T("f", T("param", "self"), "common"), "dest_dir")
        turned = sum(1 for b in brs(p) if b.args[0].op == "discr" and b.args[0].a[0] is T("next", src) and b.args[1] == "Some")
        n += turned
        cx.ob("file-is-in-the-destination", W, base and finished(p, lambda x: x is src) and len(pu) == turned and all(plain(e.args[1]) is T("item", src) for e in pu), desc(p))
    cx.floor("files put in the destination", n, 1)
    W = C + "build::build_opts::BuildOpts::new_path_in_static_from"
    for p in cx.run(W, FSW, unit=U, branches=anyb, opaque=opq(r"new_path_in_static_make$")):
        t = p.ret
        a = [lossy(x) for x in t.a[3].a[3:]] if p.end == "ret" and t.op == "call" and t.a[0].endswith("new_path_in_static_make") and t.a[3].op == "agg" else []
        ok = len(a) == 1 and a[0].op == "vf" and a[0].a[0].op == "call" and a[0].a[0].a[0].endswith("Path::file_name") and a[0].a[0].a[2] is T("f", T("param", "path"), "path")
        cx.ob("copy-keeps-its-name", W, bool(ok), show(p.ret)[:200])
    # optimising
    W = C + "build::wasm_opt::run_wasm_opt"
    seen = set()
    for p in cx.run(W, FSW, unit=U, branches=anyb):
        st = ncalls(p, r"Command::(status|output)$")
        ok = p.end == "ret" and len(st) == 1
        if not cx.ob("optimiser-is-run-once", W, ok, desc(p)):
            continue
        succ = [b.args[1] for b in brs(p) if b.args[0].op == "call" and b.args[0].a[0].endswith("ExitStatus::success")]
        if is_const(p.ret, 1):
            seen.add("yes")
            cx.ob("optimised-only-if-the-optimiser-succeeded", W, succ == [1], desc(p))
        elif is_const(p.ret, 0):
            seen.add("no")
        else:
            seen |= {"yes", "no"}
            cx.ob("optimised-only-if-the-optimiser-succeeded", W, p.ret.op == "call" and p.ret.a[0].endswith("ExitStatus::success"), desc(p))
        ar = [lossy(y) if lossy(y).op != "c" else lossy(y).a[0] for e in calls(p, r"Command::args$") for x in e.args[1:] if x.op == "agg" for y in x.a[3:]]
        ar += [lossy(e.args[1]) if lossy(e.args[1]).op != "c" else lossy(e.args[1]).a[0] for e in calls(p, r"Command::arg$")]
        to, fr = T("f", T("param", "to"), "path"), T("f", T("param", "from"), "path")
        cx.ob("optimiser-reads-and-writes-the-files-given", W, "-o" in ar and ar[ar.index("-o") + 1] is to and fr in [x for i, x in enumerate(ar) if i != ar.index("-o") + 1], str([show(x) if x.__class__ is T else x for x in ar]))
    cx.ob("all-cases", W, seen == {"yes", "no"}, str(seen))


def is_const(t, k):
    return t.op == "c" and t.a[0] == k


# ------------------------------------------------------------------ F02
class _B:
    kind, name = "br", "="

    def __init__(self, t, v):
        self.args = (t, v)


def consistent_value(b, atom, v):
    """can the branch be taken when the atom has this value?"""
    class P:
        trace = [b]
    return consistent(P, {atom: v})


def failures(p):
    """positions of steps that are known to have failed on the path"""
    return [i for i, e in enumerate(p.trace) if e.kind == "call" and outcome(p, i) == "Err"]


@check("F02", (U,))
def f02(cx):
    W = C + "new::run"
    opts = T("param", "opts")
    name = T("f", opts, "package_name")
    here = lambda t: joinp(t)
    base = [lossy(T("f", opts, "dest_dir")), name]
    seen = set()
    for p in cx.run(W, FSW + ["read_dir$"], unit=U, branches=anyb):
        if not cx.ob("making-a-project-ends", W, p.end == "ret", desc(p)):
            continue
        steps = [(i, e) for i, e in enumerate(p.trace) if e.kind == "call" and re.search(r"fs::(write|create_dir\w*|remove_\w+|rename|copy)$|File::create$|Dir::extract$|write_all$", e.name)]
        dirs = [b for b in brs(p) if b.args[0].op == "discr" and b.args[0].a[0].op == "call" and b.args[0].a[0].a[0].endswith("read_dir")]
        used = [b for b in brs(p) if b.args[0].op == "discr" and b.args[0].a[0].op == "next" and any(x.op == "call" and x.a[0].endswith("read_dir") for x in b.args[0].subs())]
        count = [b for b in brs(p) if b.args[0].op != "discr" and any(x.op == "call" and x.a[0].endswith("Iterator::count") and "read_dir" in show(x.a[2]) for x in b.args[0].subs())]
        for b in count:
            n = [x for x in b.args[0].subs() if x.op == "call" and x.a[0].endswith("Iterator::count")][0]
            empty = consistent_value(b, n, 0)
            used.append(_B(b.args[0], "None" if empty else "Some"))
        cx.ob("directory-is-looked-at-first", W, bool(dirs) and here(dirs[0].args[0].a[0].a[2]) == base and (dirs[0].args[1] != "Ok" or bool(used)), desc(p))
        if any(b.args[1] == "Some" for b in used):
            seen.add("used")
            cx.ob("used-directory-is-left-alone", W, not steps and agg_of(p.ret, "Result", "Err"), desc(p))
            continue
        bad = [i for i, e in steps if outcome(p, i) == "Err"]
        if bad:
            seen.add("failed")
            cx.ob("failure-is-an-error", W, agg_of(p.ret, "Result", "Err") and steps[-1][0] == bad[0], desc(p))
            continue
        seen.add("made")
        ok = agg_of(p.ret, "Result", "Ok") and all(outcome(p, i) == "Ok" for i, e in steps)
        cx.ob("success-only-if-everything-was-written", W, ok, desc(p))
        mk = [i for i, e in steps if e.name.endswith("create_dir_all") and here(e.args[0]) == base]
        ex = [i for i, e in steps if e.name.endswith("Dir::extract") and here(e.args[1]) == base]
        rm = [i for i, e in steps if e.name.endswith("remove_file") and here(e.args[0]) == base + ["Cargo.toml_"]]
        mv = [i for i, e in steps if e.name.endswith("rename") and here(e.args[0]) == base + ["Cargo.toml_"] and here(e.args[1]) == base + ["Cargo.toml"]]
        wr = [i for i, e in steps if e.name.endswith("fs::write") and here(e.args[0]) == base + ["Cargo.toml"]]
        ok = len(mk) == len(ex) == len(wr) == 1 and len(rm) + len(mv) == 1 and mk[0] < ex[0] < (rm + mv)[0] and ex[0] < wr[0] and (not mv or mv[0] < wr[0]) and len(steps) == 4
        if cx.ob("whole-template-is-laid-out", W, ok, desc(p)):
            src = p.trace[ex[0]].args[0]
            t = plain(p.trace[wr[0]].args[1])
            ok = t.op == "call" and t.a[0].endswith("str::replace") and t.a[4] is name and t.a[3].op == "c"
            inner = [x for x in t.subs() if x.op == "call" and x.a[0].endswith("Dir::get_file")]
            ok = ok and len(inner) == 1 and inner[0].a[2] is src and inner[0].a[3].op == "c" and inner[0].a[3].a[0] == "Cargo.toml_"
            ok = ok and t.a[2] is T("vf", T("call", *[x for y in t.subs() if y.op == "call" and y.a[0].endswith("contents_utf8") for x in y.a][:3]), "Some", "0")
            cx.ob("manifest-has-the-name-given", W, bool(ok), show(t)[:250])
            if ok:
                place, tf = t.a[3].a[0], cx.file("crates/vertigo-cli/src/new/template/Cargo.toml_")
                lines = [x for x in tf.splitlines() if place in x]
                cx.ob("template-names-the-package-once", "new/template/Cargo.toml_", [x.replace(" ", "") for x in lines] == [f'name="{place}"'] and "cdylib" in tf, tf[:200])
    cx.ob("all-cases", W, seen == {"used", "failed", "made"}, str(seen))


# ------------------------------------------------------------------ F03
CMDW = FSW + [r"process::exit$", r"Stdio::\w+$", r"(from_utf8|from_utf8_lossy)$", r"set_stdin$"]


@check("F03", (U,))
def f03(cx):
    K = C + "commons::command::CommandRun::"
    slf = T("param", "self")
    # a command from its text
    for p in cx.run(K + "new", CMDW + [r"str::split\w*$"], unit=U, branches=anyb):
        f = afields(p.ret) if p.end == "ret" and agg_of(p.ret, "CommandRun") else {}
        d = next((e.res for e in calls(p, r"str::split_(ascii_)?whitespace$") if e.args[0] is T("param", "params")), T("param", "params"))
        words = [plain(x) for x in (f.get("bin"), f.get("params")) if x is not None]
        ok = len(words) == 2 and words[0] is T("item", d) and words[1].op == "mapped" and words[1].a[0] is d and plain(words[1].a[1]) is T("item", d)
        split = [e.name for e in calls(p, r"str::split\w*$")]
        cx.ob("command-is-the-words-given", K + "new", ok and len(split) == 1 and re.search(r"split_(ascii_)?whitespace$", split[0]), show(p.ret)[:200])
        cx.ob("failures-count-unless-allowed", K + "new", f.get("error_allowed") is not None and is_const(f["error_allowed"], 0), show(p.ret)[:200])
        cx.ob("starts-without-extras", K + "new", agg_of(f.get("current_dir", d), "Option", "None") and agg_of(f.get("stdin", d), "Option", "None") and f["env"].op in ("call", "empty") and not any(x.op == "param" for x in f["env"].subs()), show(p.ret)[:300])
    # extending it
    for m, what, args in (("add_param", r"Vec::push$", ["params", "param"]), ("env", r"HashMap::insert$", ["env", "name", "value"])):
        for p in cx.run(K + m, CMDW, unit=U, branches=anyb):
            c = calls(p, what)
            ok = p.end == "ret" and len(c) == 1 and c[0].args[0] is T("f", slf, args[0]) and [plain(x) for x in c[0].args[1:]] == [T("param", x) for x in args[1:]] and p.ret is slf
            cx.ob("part-is-added", K + m, ok, desc(p))
    for p in cx.run(K + "error_allowed", CMDW, unit=U, branches=anyb):
        ok = p.end == "ret" and p.ret.op == "with" and p.ret.a[0] is slf and p.ret.a[1] == "error_allowed" and p.ret.a[2] is T("param", "flag")
        cx.ob("part-is-added", K + "error_allowed", ok, show(p.ret)[:200])
    # starting it
    cmd = T("none")
    n = 0
    for p in cx.run(K + "create_command", CMDW, unit=U, branches=anyb, opaque=opq(r"CommandRun::log$")):
        cs = [e for e in p.trace if e.kind == "call" and re.search(r"process::Command::\w+$", e.name)]
        nw = [e for e in cs if e.name.endswith("Command::new")]
        if not cx.ob("one-program-is-started", K + "create_command", p.end == "ret" and len(nw) == 1 and plain(nw[0].args[0]) is T("f", slf, "bin"), desc(p)):
            continue
        c = nw[0].res
        ar = [e for e in cs if e.name.endswith("Command::args")]
        one = [e for e in cs if e.name.endswith("Command::arg")]
        al = len(ar) == 1 and not one and ar[0].args[1] is T("f", slf, "params") or not ar and finished(p, lambda x: x is T("f", slf, "params")) and all(plain(e.args[1]) is T("item", T("f", slf, "params")) for e in one) and len(one) == sum(1 for b in brs(p) if b.args[0].op == "discr" and b.args[0].a[0] is T("next", T("f", slf, "params")) and b.args[1] == "Some")
        cx.ob("with-all-its-parameters-in-order", K + "create_command", al and all(e.args[0] is c for e in ar + one), desc(p))
        cd = [e for e in cs if e.name.endswith("current_dir")]
        there = any(t is T("f", slf, "current_dir") and w == "Some" and h for t, w, h in variants_on(p, "Option"))
        cx.ob("in-its-directory", K + "create_command", [plain(e.args[1]) for e in cd] == [T("vf", T("f", slf, "current_dir"), "Some", "0")] * there, desc(p))
        en = T("f", slf, "env")
        se = [e for e in cs if e.name.endswith("Command::env")]
        w = [e for e in cs if e.name.endswith("Command::envs")]
        turned = sum(1 for b in brs(p) if b.args[0].op == "discr" and b.args[0].a[0] is T("next", en) and b.args[1] == "Some")
        n += turned + len(w)
        ok = len(w) == 1 and w[0].args[1] is en or finished(p, lambda x: x is en) and len(se) == turned and all([plain(x) for x in e.args[1:]] == [T("f", T("item", en), "0"), T("f", T("item", en), "1")] for e in se)
        cx.ob("with-its-environment", K + "create_command", ok and not [e for e in cs if re.search(r"env_(clear|remove)$", e.name)], desc(p))
        parts = p.ret.a[3:] if p.ret.op == "agg" else ()
        cx.ob("command-made-is-the-one-run", K + "create_command", c in parts and T("f", slf, "stdin") in parts, show(p.ret)[:200])
    cx.floor("environment entries passed", n, 1)
    # its end
    seen = set()
    for p in cx.run(K + "show_status", CMDW, unit=U, branches=anyb):
        s = [b.args[1] for b in brs(p) if b.args[0].op == "call" and b.args[0].a[0].endswith("ExitStatus::success") and b.args[0].has(T("param", "output"))]
        al = [b.args[1] for b in brs(p) if b.args[0] is T("param", "error_allowed")]
        if p.end == "ret":
            seen.add((tuple(s), tuple(al)))
            cx.ob("failure-that-is-not-allowed-ends-the-tool", K + "show_status", 1 in s or 1 in al, desc(p))
    cx.ob("success-and-allowed-failures-go-on", K + "show_status", any(1 in s for s, a in seen) and any(1 in a for s, a in seen), str(seen))
    for m in ("run", "output_with_status", "output_to_file"):
        f = cx.fn_opt(K + m, U)
        if f is None:
            continue
        for p in cx.run(f, CMDW, unit=U, branches=anyb, opaque=opq(r"CommandRun::(create_command|show_status|set_stdin|convert_to_string)$")):
            cc, ss, out = calls(p, r"create_command$"), calls(p, r"show_status$"), ncalls(p, r"process::Command::output$")
            if not cx.ob("command-is-run-once", K + m, p.end == "ret" and len(cc) == len(out) == 1 and cc[0].args[0] is slf and out[0][1].args[0] is T("f", cc[0].res, "1"), desc(p)):
                continue
            o = T("vf", out[0][1].res, "Ok", "0")
            cx.ob("its-failure-is-looked-at", K + m, len(ss) == 1 and ss[0].args == (T("f", slf, "error_allowed"), o) or len(ss) == 1 and list(ss[0].args) == [T("f", slf, "error_allowed"), o], desc(p))
            if m == "output_with_status":
                r = p.ret.a[3:] if p.ret.op == "agg" else ()
                cx.ob("answer-is-its-status-and-output", K + m, len(r) == 2 and r[0] is T("f", o, "status") and r[1].has(T("f", o, "stdout")) and "from_utf8" in show(r[1]) or len(r) == 2 and r[0] is T("f", o, "status") and r[1].op == "call" and r[1].a[0].endswith("convert_to_string") and r[1].a[2] is T("f", o, "stdout"), show(p.ret)[:200])
                cx.ob("output-is-kept-for-the-answer", K + m, not calls(p, r"Command::stdout$"), desc(p))
    for p in cx.run(K + "output", CMDW, unit=U, branches=anyb, opaque=opq(r"CommandRun::output_with_status$")):
        c = calls(p, r"output_with_status$")
        cx.ob("answer-is-its-status-and-output", K + "output", p.end == "ret" and len(c) == 1 and p.ret is T("f", c[0].res, "1"), show(p.ret)[:200])
    # the compiler
    W = C + "build::cargo_build::run_cargo_build"
    n = 0
    for p in cx.run(W, CMDW, unit=U, branches=anyb, opaque=opq(r"CommandRun::\w+$")):
        run = calls(p, r"CommandRun::(output_with_status|output|run)$")
        succ = [b.args[1] for b in brs(p) if b.args[0].op == "call" and b.args[0].a[0].endswith("ExitStatus::success") and run and b.args[0].has(run[-1].res)]
        if p.end == "ret" and agg_of(p.ret, "Result", "Ok"):
            n += 1
            cx.ob("success-only-if-the-program-succeeded", W, succ == [1], desc(p))
    cx.floor("successful compilations", n, 1)
    # the compiler's target
    W = C + "build::check_env::check_env"
    ask = lambda t: "".join(str(x) for x in joined(None, plain(t))) if t.op != "c" else t.a[0]
    seen = set()
    ps = cx.run(W, CMDW + [r"str::contains$"], unit=U, branches=anyb, opaque=opq(r"CommandRun::\w+$"))
    tests = {e.args[1].a[0] for p in ps for e in calls(p, r"str::contains$") if e.args[1].op == "c"}
    for p in ps:
        nw = [e for e in calls(p, r"CommandRun::new$")]
        texts = [plain(e.args[0]).a[0] if plain(e.args[0]).op == "c" else "?" for e in nw]
        ran = [e.args[0] for e in calls(p, r"CommandRun::(run|output|output_with_status)$")]
        tgt, ins = None, None
        for b in brs(p):
            if b.args[0].op == "call" and b.args[0].a[0].endswith("str::contains") and b.args[0].a[3].op == "c":
                k = b.args[0].a[3].a[0]
                if k == "wasm32-unknown-unknown":
                    tgt = b.args[1]
                elif "installed" in k and tgt == 1:
                    ins = b.args[1]
            elif b.args[0].op == "call" and re.search(r"Iterator>?::any$", b.args[0].a[0]):
                tgt, ins = 1, b.args[1] if "wasm32-unknown-unknown" in tests and any("installed" in x for x in tests) else None
        ok = p.end == "ret" and agg_of(p.ret, "Result", "Ok") and bool(texts) and texts[0].startswith("rustup target list") and nw[0].res in ran
        cx.ob("targets-are-looked-up", W, ok, desc(p))
        added = [e for e, t in zip(nw, texts) if t == "rustup target add wasm32-unknown-unknown" and e.res in ran]
        seen.add(bool(added))
        cx.ob("target-is-added-unless-installed", W, len(added) == (0 if ins == 1 else 1), desc(p))
    cx.ob("all-cases", W, seen == {True, False}, str(seen))


# ------------------------------------------------------------------ F04
WATCHW = [r"Workspace::\w+$", r"Sender::send\w*$", r"Notify::\w+$", r"Watcher>?::\w+$", r"watch::channel$", r"tokio.*spawn$", r"SpawnOwner::\w+$", r"get_workspace$", r"Receiver::\w+$", r"build_and_watch$", r"run_with_ws$", r"serve_run::run$", r"sleep$", r"Retry::\w+$",
          r"Path\w*::starts_with$", r"WatchOpts::\w+$", r"TcpListener::\w+$", r"Server::\w+$", r"Route::\w+$", r"Waker::\w+$", r"drop:.*(SpawnOwner|Watcher)$", r"mem::(drop|forget)$", r"EndpointExt::\w+$", r"JoinHandle::abort$", r"Event::\w+$", r"SSE::\w+$", r"StreamExt::\w+$", r"is_http_server_listening$"]
WATCHO = opq(r"build_and_watch$|run_with_ws$|serve_run::run$|Workspace::(find_package_path|infer_package_name)$|get_workspace$|SpawnOwner::new$|is_http_server_listening$|Watcher>?::(new|watch|unwatch)$")


def shape(t):
    """the value below field replacements: (value, {field: new value})"""
    over = {}
    while t.op == "with":
        over.setdefault(t.a[1], t.a[2])
        t = t.a[0]
    return t, over


@check("F04", (U,))
def f04(cx):
    A = C + "watch::"
    W = A + "watch_run::run"
    opts = T("param", "opts")
    clos, servers, seen = {}, {}, set()
    n = 0
    for p in arun(cx, W, WATCHW, branches=anyb, opaque=WATCHO, suspend=True, drops=True):
        fp = ncalls(p, r"find_package_path$")
        bw = ncalls(p, r"build_and_watch$")
        if not (fp and outcome_or_bound(p, fp[0][0]) == "Some"):
            seen.add("no package")
            cx.ob("unknown-package-is-an-error", W, p.end == "ret" and agg_of(p.ret, "Result", "Err") and not bw, desc(p))
            continue
        path = T("vf", fp[0][1].res, "Some", "0")
        mk = ncalls(p, r"Watcher>?::new$")
        if not cx.ob("one-watcher", W, len(mk) == 1, desc(p)):
            continue
        if outcome(p, mk[0][0]) != "Ok":
            cx.ob("no-watching-without-a-watcher", W, p.end == "ret" and agg_of(p.ret, "Result", "Err") and not bw, desc(p))
            continue
        seen.add("watching")
        clo = mk[0][1].args[0]
        clos[(clo, path)] = True
        watcher = T("vf", mk[0][1].res, "Ok", "0")
        wt = [(i, e) for i, e in ncalls(p, r"Watcher>?::watch$") if e.args[0] is watcher]
        rec = all(agg_of(e.args[2], "RecursiveMode", "Recursive") for i, e in wt)
        first = min([i for i, e in bw], default=len(p.trace))
        aw = T("f", opts, "add_watch_path")
        turned = sum(1 for b in brs(p) if b.args[0].op == "discr" and b.args[0].a[0] is T("next", aw) and b.args[1] == "Some")
        what = [lossy(e.args[1]) for i, e in wt]
        n += turned
        cx.ob("package-and-added-paths-are-watched", W, rec and what.count(path) == 1 and what.count(T("item", aw)) == turned and finished(p, lambda x: x is aw) and all(i < first for i, e in wt) and not calls(p, r"unwatch$"), desc(p))
        cx.ob("watching-goes-on", W, not any(e.kind == "call" and e.name.endswith("mem::drop") and e.args and e.args[0] is watcher for e in p.trace[:first]), desc(p))
        # what the page is told
        ch = calls(p, r"watch::channel$")
        if not cx.ob("one-channel", W, len(ch) == 1, desc(p)):
            continue
        tx, rx = T("f", ch[0].res, "0"), T("f", ch[0].res, "1")
        sp = calls(p, r"tokio.*spawn$")
        caps = [x for e in sp for x in e.args[0].a[2:]] if sp and sp[0].args[0].op == "clo" else []
        addr = [x for x in caps if x.op == "fmt"]
        app = [x for x in caps if x.op == "call" and x.has(rx)]
        at = [x for y in app for x in y.subs() if x.op == "call" and x.a[0].endswith("Route::at")]
        ok = len(sp) == 1 and len(addr) == 1 and flat(addr[0]) == ["127.0.0.1:", T("f", opts, "port_watch")] or len(sp) == 1 and len(addr) == 1 and [str(x) if isinstance(x, str) else show(x) for x in joined(p, addr[0])] == ["127.0.0.1:", "opts.port_watch"]
        ok = ok and len(app) == 1 and app[0].op == "call" and len(at) == 1 and at[0].a[3].op == "c" and at[0].a[3].a[0] == "/events" and "handler_sse" in show(at[0].a[4])
        data = [x for y in app for x in y.subs() if x.op == "call" and x.a[0].endswith("EndpointExt::data") and x.a[3] is rx and at and x.a[2].has(at[0])]
        cx.ob("status-is-served-at-the-watch-port", W, bool(ok) and len(data) == 1, desc(p))
        if ok:
            servers[sp[0].args[0]] = (addr[0], app[0])
        # the turns
        events = []
        nf = None
        for i, e in enumerate(p.trace):
            if e.kind == "call" and e.name.endswith("Sender::send") and e.args[0] is tx:
                events.append(("told", agg_of(e.args[1], "Status", "Building") and True, outcome(p, i), i))
            elif e.kind == "call" and e.name.endswith("build_and_watch"):
                events.append(("build", e, None, i))
            elif e.kind == "suspend" and any(x.op == "call" and x.a[0].endswith("Notify::notified") for a in e.args for x in a.subs()):
                events.append(("changed", e, None, i))
            elif e.kind == "call" and re.search(r"SpawnOwner::off$|mem::drop$", e.name) and e.args[0].op == "call" and e.args[0].a[0].endswith("build_and_watch") or e.kind == "drop" and e.args and e.args[0].op == "call" and e.args[0].a[0].endswith("build_and_watch"):
                events.append(("stop", e.args[0], None, i))
        k, ok, cur = 0, True, None
        order = ["told", "build", "changed", "stop"]
        for what, x, o, i in events:
            if what == "stop" and cur is not None and x is cur and order[k % 4] != "stop":
                ok = False
            if what == "stop" and (cur is None or order[k % 4] != "stop"):
                continue            # a second drop of the same task
            if what != order[k % 4]:
                ok = False
                break
            if what == "told":
                ok = ok and x and o in ("Ok", None, "Err")
            elif what == "build":
                cur = x.res
                o2, over = shape(x.args[2])
                pk = over.get("build", T("f", opts, "build"))
                b2, over2 = shape(pk)
                ok = ok and x.args[1] is tx and o2 is opts and set(over) <= {"build"} and b2 is T("f", opts, "build") and set(over2) <= {"package_name"}
                cx.ob("every-turn-builds-the-watched-package", W, ok and (over2 and some_of(over2["package_name"]) is fp[0][1].args[1] or not over2 and lossy(fp[0][1].args[1]) is T("vf", T("f", opts, "build"), "Some", "0") or not over2 and lossy(plain(fp[0][1].args[1])) is T("vf", T("f", T("f", opts, "build"), "package_name"), "Some", "0")), show(x.args[2])[:200])
            elif what == "changed":
                nf = [y.a[2] for a in x.args for y in a.subs() if y.op == "call" and y.a[0].endswith("Notify::notified")][0]
                ok = ok and clo.has(nf)
            elif what == "stop":
                ok = ok and x is cur
                cur = None
            k += 1
        cx.ob("every-turn-tells-builds-waits-and-stops", W, ok and bool(events), desc(p, 20))
        vs = [e.args[0] for i, e in bw]
        good = True
        for v in vs:
            good = good and (v.op == "c" and v.a[0] == 1 or v.op == "bin" and v.a[0] in ("Add", "AddChecked", "AddWithOverflow") and v.a[1].op in ("loop", "c") and is_const(v.a[2], 1))
        cx.ob("every-turn-has-its-own-version", W, good and len(set(vs)) == len(vs), str([show(v) for v in vs]))
        told = [(o, i) for w, x, o, i in events if w == "told"]
        if p.end == "ret":
            seen.add("ends")
            cx.ob("watching-ends-only-if-nobody-can-be-told", W, bool(told) and told[-1][0] == "Err" and agg_of(p.ret, "Result", "Err"), desc(p))
    cx.floor("added paths watched", n, 1)
    cx.ob("all-cases", W, {"no package", "watching", "ends"} <= seen, str(seen))
    # the counter is not changed between turns
    # events of the watcher
    for clo, path in clos:
        ev_ = T("param", "res")
        ex = [x for x in clo.a[2:] if x.op == "agg" or x.op in ("mapped", "call") and "join" in show(x)]
        lst = sorted(map(str, [tuple(map(str, joinp(y))) for x in ex for y in (x.a[3:] if x.op == "agg" else [])]))
        want = sorted(map(str, [tuple(map(str, joinp(path) + ["target"])), tuple(map(str, joinp(path) + joinp(T("f", T("f", opts, "common"), "dest_dir"))))]))
        cx.ob("only-build-results-are-left-out", W, len(ex) == 1 and lst == want, str(lst)[:300])
        nots = [x for x in clo.a[2:] if x.op == "call" and x.a[0].endswith("Notify::new")]
        cases = set()
        evp = T("vf", ev_, "Ok", "0")
        paths = T("f", evp, "paths")
        for p in crun(cx, clo, WATCHW + [r"Iterator>?::(all|any)$"], branches=anyb, extra=[ev_]):
            sent = calls(p, r"Notify::notify_(one|waiters|last)$")
            ok_ = [w for t, w, h in variants_on(p, "Result") if t is ev_ and h]
            if "Ok" not in ok_:
                cases.add("error")
                cx.ob("errors-start-nothing", W, not sent, desc(p))
                continue
            sel = [b for b in brs(p) if b.args[0].op == "call" and re.search(r"Iterator>?::(all|any)$", b.args[0].a[0]) and b.args[0].a[2] is paths]
            if len(sel) == 1:
                q = sel[0].args[0]
                neg = excluded(cx, q.a[3], ex[0] if ex else None)
                all_ = q.a[0].endswith("all")
                # all(excluded) true -> nothing; any(not excluded) true -> build
                if not cx.ob("changes-are-told-apart-by-path", W, neg is not None and (all_ and neg is False or not all_ and neg is True), show(q)[:200]):
                    continue
                fire = (sel[0].args[1] == 0) if all_ else (sel[0].args[1] == 1)
                cases.add("fire" if fire else "still")
                cx.ob("every-other-change-starts-a-build", W, fire == (len(sent) == 1) and all(e.args[0] in nots and e.name.endswith("notify_one") for e in sent), desc(p))
            else:
                cx.ob("changes-are-told-apart-by-path", W, False, desc(p))
        cx.ob("all-cases", W + "::event", cases == {"error", "fire", "still"}, str(cases))
    # the server of the status
    for clo, (addr, app) in servers.items():
        for p in crun(cx, clo, WATCHW, branches=anyb, suspend=True):
            b, s, r = calls(p, r"TcpListener::bind$"), calls(p, r"Server::new$"), calls(p, r"Server::run$")
            ok = len(b) == len(s) == len(r) == 1 and b[0].args[0] is addr and s[0].args[0] is b[0].res and r[0].args[0] is s[0].res and r[0].args[1] is app
            cx.ob("status-server-runs", W, ok and any(e.kind == "suspend" for e in p.trace), desc(p))
    # one build
    W = A + "watch_run::build_and_watch"
    vs = T("param", "version")
    seen = set()
    for p0 in cx.run(W, WATCHW, unit=U, branches=anyb, opaque=WATCHO):
        f = [t for t in p0.ret.subs() if t.op == "clo"] if p0.end == "ret" and p0.ret.op == "call" and p0.ret.a[0].endswith("SpawnOwner::new") else []
        if not cx.ob("build-is-a-task-of-its-own", W, len(f) >= 1, desc(p0)):
            continue
        for p in crun(cx, f[0], WATCHW, branches=anyb, opaque=WATCHO, suspend=True, drops=True):
            run = ncalls(p, r"run_with_ws$")
            if not cx.ob("one-build-per-turn", W, len(run) == 1 and p.end == "ret" and copy_opts(run[0][1].args[0], {"common": "common", "inner": "build"}), desc(p)):
                continue
            sv = ncalls(p, r"serve_run::run$")
            send = ncalls(p, r"Sender::send\w*$")
            if outcome(p, run[0][0]) == "Ok":
                seen.add("ok")
                sp = [(i, e) for i, e in ncalls(p, r"SpawnOwner::new$")]
                aw = [i for i, e in enumerate(p.trace) if e.kind == "suspend" and sv and any(a.has(sv[0][1].res) for a in e.args)]
                cx.ob("good-build-is-served-with-its-options", W, len(sv) == 1 and bool(aw) and copy_opts(sv[0][1].args[0], {"common": "common", "inner": "serve"}) and some_of(sv[0][1].args[1]) is T("f", T("param", "opts"), "port_watch"), desc(p))
                gone = [i for i, e in enumerate(p.trace) if sp and (e.kind == "call" and re.search(r"SpawnOwner::off$|mem::drop$", e.name) or e.kind == "drop") and e.args and e.args[0] is sp[0][1].res]
                ok = len(sp) == 1 and sp[0][1].args[0].op == "clo" and bool(aw) and sp[0][0] < aw[0] and not [i for i in gone if i < aw[0]] and not send
                if cx.ob("page-is-told-once-served", W, ok, desc(p)):
                    for q in crun(cx, sp[0][1].args[0], WATCHW, branches=anyb, opaque=WATCHO, suspend=True):
                        s = ncalls(q, r"Sender::send$")
                        ask = [i for i, e in enumerate(q.trace) if e.kind == "suspend" or e.kind == "call" and "Retry" in e.name]
                        good = len(s) == 1 and s[0][1].args[0] is T("param", "tx") and agg_of(s[0][1].args[1], "Status", "Version") and s[0][1].args[1].a[3] is vs
                        cx.ob("page-is-told-the-version-served", W, q.end == "ret" and good and any(i < s[0][0] for i in ask), desc(q))
                        rt = calls(q, r"Retry\w*::spawn\w*$")
                        port = [x for e in rt for x in e.args[1].subs() if x is T("f", T("f", T("param", "opts"), "serve"), "port")] if rt and len(rt[0].args) > 1 else []
                        cx.ob("asked-at-the-port-served", W, len(rt) == 1 and bool(port), desc(q))
            else:
                seen.add("err")
                ok = not sv and len(send) == 1 and send[0][1].args[0] is T("param", "tx") and agg_of(send[0][1].args[1], "Status", "Errors")
                cx.ob("failed-build-is-told-and-not-served", W, ok, desc(p))
    cx.ob("all-cases", W, seen == {"ok", "err"}, str(seen))
    # tasks end with their owner
    for i in cx.crate(U).insts.values():
        if i["p"].endswith("SpawnOwner as std::ops::Drop>::drop"):
            for p in cx.run(i, WATCHW, unit=U, branches=anyb):
                c = calls(p, r"abort$")
                cx.ob("owner-ends-its-task", i["p"], p.end == "ret" and len(c) == 1 and c[0].args[0] is T("f", T("param", "self"), "handler"), desc(p))
            break
    else:
        cx.ob("owner-ends-its-task", C + "commons::spawn::SpawnOwner", False, "no Drop implementation")
    for p in cx.run(C + "commons::spawn::SpawnOwner::new", WATCHW, unit=U, branches=anyb):
        c = calls(p, r"spawn$")
        cx.ob("owner-starts-its-task", C + "commons::spawn::SpawnOwner::new", p.end == "ret" and len(c) == 1 and c[0].args[0] is T("param", "future") and afields(p.ret).get("handler") is c[0].res, desc(p))
    # what a page hears
    poll = [i for i in cx.crate(U).insts.values() if "sse" in i["p"] and i["p"].endswith("Stream>::poll_next")]
    cx.need(poll, "the stream of status values")
    W = poll[0]["p"]
    slf = T("param", "self")
    last, spawn, rx = T("f", slf, "last_emit_value"), T("f", slf, "spawn"), T("f", slf, "rx")
    seen, wakers = set(), {}
    for p in cx.run(poll[0], WATCHW + [r"PartialEq"], unit=U, branches=anyb, opaque=opq(r"SpawnOwner::new$"), stores=lambda t, v: True):
        st = {e.args[0]: e.args[1] for e in p.trace if e.kind == "store"}
        cur = rx
        has = [w for t, w, h in variants_on(p, "Option") if t is spawn and h]
        armed = "Some" in has or spawn in st and some_of(st[spawn]) is not None and some_of(st[spawn]).op == "call" and some_of(st[spawn]).a[0].endswith("SpawnOwner::new")
        if spawn in st and some_of(st[spawn]) is not None:
            wakers[some_of(st[spawn])] = True
        bor = [i for i, e in ncalls(p, r"Receiver::(borrow|borrow_and_update)$")]
        sp = [i for i, e in ncalls(p, r"SpawnOwner::new$")]
        cx.ob("listening-starts-before-looking", W, not sp or bool(bor) and sp[0] < bor[0], desc(p))
        if agg_of(p.ret, "Poll", "Pending"):
            seen.add("same")
            same = [b.args[1] for b in brs(p) if b.args[0].op == "bin" and b.args[0].a[0] in ("Eq", "Ne") and {b.args[0].a[1], b.args[0].a[2]} == {T("vf", last, "Some", "0"), cur} and b.args[1] == (1 if b.args[0].a[0] == "Eq" else 0)] + \
                   [1 for b in brs(p) if b.args[0].op == "bin" and b.args[0].a[0] == "Eq" and b.args[0].has(last) and b.args[0].has(cur) and b.args[1] == 1]
            cx.ob("page-waits-only-for-something-new", W, bool(same) and armed and last not in st, desc(p))
        else:
            seen.add("new")
            ok = agg_of(p.ret, "Poll", "Ready") and some_of(p.ret.a[3]) is cur and last in st and some_of(st[last]) is cur
            cx.ob("page-hears-the-newest-status", W, ok and armed, desc(p))
    cx.ob("all-cases", W, seen == {"same", "new"}, str(seen))
    for t in wakers:
        clo = t.a[2]
        ok0 = clo.op == "clo" and rx in clo.a[2:] and any(x.op == "call" and x.a[0].endswith("Context::waker") for x in clo.a[2:])
        if cx.ob("page-is-woken-on-every-change", W, ok0, show(t)[:200]):
            for p in crun(cx, clo, WATCHW + [r"Receiver::changed$"], branches=anyb, suspend=True):
                seq = ["c" if e.kind == "suspend" else "w" for e in p.trace if e.kind == "suspend" or e.kind == "call" and re.search(r"Waker::wake\w*$", e.name)]
                txt = "".join(seq)
                cx.ob("page-is-woken-on-every-change", W, p.end != "ret" and re.match(r"^(cw)+c?$", txt) is not None, txt + " " + desc(p))
    # in which words
    h = [i for i in cx.crate(U).insts.values() if re.search(r"handler_sse.*::handler_sse::\{closure#0\}$", i["p"])]
    cx.need(h, "the words for the status")
    words = {}
    it = T("param", "item")
    for p in cx.run(h[0], WATCHW, unit=U, branches=anyb, args=[T("param", "closure"), it]):
        v = [w for t, w, hd in variants_on(p, "Status") if t is it and hd]
        m = calls(p, r"Event::message$")
        if cx.ob("status-has-its-word", h[0]["p"], p.end == "ret" and len(v) >= 1 and len(m) == 1 and p.ret is m[0].res, desc(p)):
            words[v[0]] = joined(p, plain(m[0].args[0]))
    js = cx.file("crates/vertigo-cli/src/serve/watch.js")
    known = re.findall(r"(?<!typeof )message\s*===?\s*['\"](\w+)['\"]", js)
    cx.ob("words-are-those-of-the-page", "watch.js", words.get("Building") == ["Building"] and words.get("Errors") == ["Errors"] and set(known) == {"Building", "Errors"}, f"{words} {known}")
    w = words.get("Version", [])
    cx.ob("every-version-has-its-own-word", h[0]["p"], [x for x in w if not isinstance(x, str)] == [T("vf", it, "Version", "0")] and "".join(x for x in w if isinstance(x, str)) not in known, str(w))
    outer = [i for i in cx.crate(U).insts.values() if re.search(r"handler_sse.*::handler_sse$", i["p"])]
    for p in cx.run(outer[0], WATCHW, unit=U, branches=anyb) if outer else []:
        cx.ob("page-hears-this-channel", outer[0]["p"], p.end == "ret" and p.ret.op == "call" and p.ret.a[0].endswith("SSE::new") and any(agg_of(x, "MyStream") and x.has(T("param", "state")) and agg_of(afields(x)["last_emit_value"], "Option", "None") for x in p.ret.subs()), show(p.ret)[:300])


def some_of(t):
    return t.a[3] if agg_of(t, "Option", "Some") else None


def outcome_or_bound(p, i):
    return outcome(p, i)


def copy_opts(t, fields):
    """the parts of a structure are (copies of) these parts of the parameter opts"""
    f = afields(t)
    if set(f) != set(fields):
        return False
    return all(same_copy(f[a], T("f", T("param", "opts"), b)) for a, b in fields.items())


def same_copy(t, src):
    if t is src or plain(t) is src:
        return True
    if t.op == "agg":
        f = afields(t)
        return bool(f) and all(same_copy(v, T("f", src, k)) for k, v in f.items())
    return False


def excluded(cx, clo, ex):
    """the closure tells whether a path is below an excluded one: False = yes when true, True = negated, None = something else"""
    if clo.op != "clo" or ex is None:
        return None
    x = T("param", "path")
    mean = set()
    for p in crun(cx, clo, [r"Path\w*::starts_with$"], branches=anyb, extra=[x]):
        if p.end != "ret":
            continue
        tests = [b for b in brs(p) if b.args[0].op == "call" and b.args[0].a[0].endswith("starts_with")]
        if any(b.args[0].a[2] is not x or not (b.args[0].a[3].op == "item" and b.args[0].a[3].a[0] is ex or b.args[0].a[3] in ex.a[3:]) for b in tests):
            return None
        hit = any(b.args[1] == 1 for b in tests)
        r = p.ret
        if r.op == "c" and r.a[0] in (0, 1):
            if not hit and not (finished(p, lambda y: y is ex) or {b.args[0].a[3] for b in tests} == set(ex.a[3:])):
                return None
            mean.add(bool(r.a[0]) == hit)
        else:
            neg = r.op == "not"
            q = r.a[0] if neg else r
            if q.op == "call" and re.search(r"Iterator>?::any$", q.a[0]) and q.a[2] is ex and q.a[3].op == "clo" and q.a[3].a[2:] in ((x,), (ex, x)):
                for s in crun(cx, q.a[3], [r"starts_with$"], branches=anyb, extra=[T("item", ex)]):
                    if not (s.ret.op == "call" and s.ret.a[0].endswith("starts_with") and s.ret.a[2] is x and s.ret.a[3] is T("item", ex)):
                        return None
                mean.add(not neg)
            else:
                return None
    return (not mean.pop()) if len(mean) == 1 else None


# ------------------------------------------------------------------ F05
def picks(cx, clo, elem, test):
    """does the closure given an element answer exactly `test(result term)`?"""
    if clo.op != "clo":
        return False
    out = []
    for p in crun(cx, clo, [r"PartialEq"], branches=anyb, extra=[elem]):
        if p.end != "ret":
            continue
        out.append(bool(test(p, p.ret)))
    return bool(out) and all(out)


def same_text(p, r, a, b):
    """r tells whether a and b are equal"""
    if r.op == "bin" and r.a[0] == "Eq":
        return {plain(r.a[1]), plain(r.a[2])} == {a, b}
    return r.op == "call" and re.search(r"::eq$", r.a[0]) and {plain(r.a[2]), plain(r.a[3])} == {a, b}


@check("F05", (U,))
def f05(cx):
    # key=value
    W = C + "commons::parse_key_val::parse_key_val"
    s = T("param", "s")
    seen = set()
    is_eq = lambda t: t.op == "c" and t.a[0] in (61, "=")
    insts = [i for i in cx.crate(U).insts.values() if i["p"] == cx.fn(W, U)["p"]]
    for p in [p for i in insts for p in cx.run(i, [r"str::(find|rfind|split_once|rsplit_once|split\w*)$"], unit=U, branches=anyb)]:
        if not cx.ob("option-is-read-without-a-panic", W, p.end == "ret", desc(p)):
            continue
        at = [b for b in brs(p) if b.args[0].op == "discr" and b.args[0].a[0].op == "call" and re.search(r"str::(find|split_once)$", b.args[0].a[0].a[0]) and b.args[0].a[0].a[2] is s and is_eq(b.args[0].a[0].a[3])]
        if not cx.ob("split-at-the-first-equals-sign", W, bool(at), desc(p)):
            continue
        if at[0].args[1] == "None":
            seen.add("none")
            cx.ob("no-equals-sign-is-an-error", W, agg_of(p.ret, "Result", "Err"), show(p.ret)[:200])
            continue
        pos = T("vf", at[0].args[0].a[0], "Some", "0")
        ps_ = {}
        for x in [y for b in brs(p) if b.args[0].op == "discr" for y in b.args[0].subs()] + list(p.ret.subs()):
            if x.op == "call" and x.a[0].endswith("str::parse"):
                ps_[x] = x.a[2]

        def side(t):
            t = plain(t)
            if pos.a[0].a[0].endswith("split_once"):
                return "key" if t is T("f", pos, "0") else "value" if t is T("f", pos, "1") else None
            if t.op == "call" and t.a[0].endswith("::index") and t.a[2] is s:
                g = t.a[3]
                if agg_of(g, "RangeTo") and g.a[3] is pos:
                    return "key"
                if agg_of(g, "RangeFrom") and g.a[3].op == "bin" and g.a[3].a[0].startswith("Add") and g.a[3].a[1] is pos and is_const(g.a[3].a[2], 1):
                    return "value"
                if agg_of(g, "Range") and is_const(g.a[3], 0) and g.a[4] is pos:
                    return "key"
            return None
        if agg_of(p.ret, "Result", "Ok"):
            seen.add("ok")
            r = p.ret.a[3].a[3:] if p.ret.a[3].op == "agg" else ()
            r = [x.a[0] if x.op == "vf" and x.a[1] == "Ok" else x for x in r]
            ok = len(r) == 2 and all(x in ps_ for x in r) and [side(ps_[x]) for x in r] == ["key", "value"]
            cx.ob("name-before-and-value-after-it", W, ok, show(p.ret)[:300])
        else:
            cx.ob("unreadable-part-is-an-error", W, any(b.args[0].op == "discr" and b.args[0].a[0] in ps_ and b.args[1] == "Err" for b in brs(p)), desc(p))
    cx.ob("all-cases", W, {"none", "ok"} <= seen, str(seen))
    # watching passes the options on
    WO_ = C + "watch::watch_opts::WatchOpts::"
    slf = T("param", "self")

    def copy(t, m):
        f = afields(t)
        return set(f) == set(m) and all(same_copy(f[a], T("f", slf, b)) for a, b in m.items())
    for p in cx.run(WO_ + "to_build_opts", FSW, unit=U, branches=anyb):
        cx.ob("options-are-passed-on", WO_ + "to_build_opts", p.end == "ret" and copy(p.ret, {"common": "common", "inner": "build"}), show(p.ret)[:300])
    for p in cx.run(WO_ + "to_serve_opts", FSW, unit=U, branches=anyb):
        r = p.ret.a[3:] if p.end == "ret" and p.ret.op == "agg" else ()
        cx.ob("options-are-passed-on", WO_ + "to_serve_opts", len(r) == 2 and copy(r[0], {"common": "common", "inner": "serve"}) and r[1] is T("f", slf, "port_watch"), show(p.ret)[:300])
    # commands
    W = C + "main"
    want = {"Build": "build_run::run", "New": "new::run", "Serve": "serve_run::run", "Watch": "watch_run::run"}
    seen = set()
    for p in arun(cx, W, [r"::run$", "Parser.*::parse$"], branches=anyb, opaque=opq(r"(build_run|new|serve_run|watch_run)::run$"), suspend=True):
        v = [(t, w) for t, w, h in variants_on(p, "Command") if h]
        rn = [e for e in calls(p, r"::run$") if re.search(r"(build_run|new|serve_run|watch_run)::run$", e.name)]
        if not cx.ob("one-command-is-run", W, p.end == "ret" and len({w for t, w in v}) == 1 and len(rn) == 1, desc(p)):
            continue
        t, w = v[0]
        seen.add(w)
        e = rn[0]
        ok = e.name.endswith(want.get(w, "?")) and e.args[0] is T("vf", t, w, "0") and (len(e.args) < 2 or agg_of(e.args[1], "Option", "None"))
        cx.ob("command-gets-its-options", W, ok and p.ret in (e.res, T("await", e.res)), desc(p))
    cx.ob("all-cases", W, seen == set(want), str(seen))
    W = C + "build::build_run::run"
    for p in cx.run(W, FSW, unit=U, branches=anyb, opaque=opq(r"get_workspace$|run_with_ws$")):
        cx.ob("builds-in-the-workspace", W, p.end == "ret" and p.ret.op == "call" and p.ret.a[0].endswith("run_with_ws") and p.ret.a[2] is T("param", "opts") and p.ret.a[3].op == "vf" and p.ret.a[3].a[0].a[0].endswith("get_workspace"), show(p.ret)[:200])
    # the workspace
    WS = C + "build::cargo_workspace::"
    W = WS + "get_workspace"
    seen = set()
    for p in cx.run(W, FSW + [r"Vec::retain$"], unit=U, branches=anyb, opaque=opq(r"CommandRun::\w+$")):
        out = [e for e in calls(p, r"CommandRun::output$")]
        rd = calls(p, r"serde_json::from_str$")
        chain, t = [], out[0].args[0] if out else T("none")
        while t.op == "call" and re.search(r"CommandRun::(add_param|new)$", t.a[0]):
            x = plain(t.a[3] if t.a[0].endswith("add_param") else t.a[2])
            chain = str(x.a[0] if x.op == "c" else "?").split() + chain
            t = t.a[2]
        ok = p.end == "ret" and len(out) == len(rd) == 1 and chain[:2] == ["cargo", "metadata"] and "--format-version=1" in " ".join(chain).replace("--format-version 1", "--format-version=1") and plain(rd[0].args[0]) is out[0].res
        if not cx.ob("workspace-is-what-cargo-says", W, ok, desc(p)):
            continue
        ws = T("vf", rd[0].res, "Ok", "0")
        if agg_of(p.ret, "Result", "Ok"):
            seen.add("ok")
            rt = calls(p, r"Vec::retain$")
            good = not rt or len(rt) == 1 and rt[0].args[0] is T("f", ws, "packages") and picks(cx, rt[0].args[1], T("param", "x"), lambda q, r: r.op == "call" and r.a[0].endswith("contains") and r.a[2] is T("f", ws, "workspace_members") and r.a[3] is T("f", T("param", "x"), "id"))
            cx.ob("no-member-is-lost", W, p.ret.a[3] is ws and good, desc(p))
        else:
            seen.add("err")
            cx.ob("unreadable-workspace-is-an-error", W, any(t is rd[0].res and w == "Err" for t, w, h in variants_on(p, "Result")), desc(p))
    cx.ob("all-cases", W, seen == {"ok", "err"}, str(seen))
    pk, mem = T("f", slf, "packages"), T("f", slf, "workspace_members")
    W = WS + "Workspace::infer_package_name"
    seen = set()
    opc = opq(r"Package::is_cdylib$")
    el = T("param", "x")
    for p in cx.run(W, FSW, unit=U, branches=anyb, opaque=opc):
        if not cx.ob("package-is-looked-for", W, p.end == "ret", desc(p)):
            continue
        hits = []
        for b in brs(p):
            t = b.args[0]
            if t.op == "call" and t.a[0].endswith("is_cdylib"):
                hits.append((t.a[2], b.args[1]))
        good = True
        for d, v in hits:
            f = d.a[0] if d.op == "vf" else T("none")
            good = good and f.op == "call" and re.search(r"Iterator>?::find$", f.a[0]) and f.a[2] is pk and picks(cx, f.a[3], el, lambda q, r: same_text(q, r, T("f", el, "id"), T("item", mem)))
        cx.ob("members-are-looked-at", W, good, desc(p))
        name = some_of(p.ret)
        if name is not None:
            seen.add("some")
            cx.ob("first-application-of-the-workspace", W, bool(hits) and hits[-1][1] == 1 and all(v == 0 for d, v in hits[:-1]) and plain(name) is T("f", hits[-1][0], "name"), desc(p))
        else:
            seen.add("none")
            cx.ob("none-only-without-an-application", W, agg_of(p.ret, "Option", "None") and finished(p, lambda x: x is mem) and all(v == 0 for d, v in hits), desc(p))
    cx.ob("all-cases", W, seen == {"some", "none"}, str(seen))
    W = WS + "Package::is_cdylib"
    for p in cx.run(W, FSW, unit=U, branches=anyb):
        r = p.ret
        tg = T("f", slf, "targets")

        def kinds(q, r2):
            return r2.op == "call" and (re.search(r"Iterator>?::any$", r2.a[0]) and r2.a[2] is T("f", el, "kind") and picks(cx, r2.a[3], T("param", "y"), lambda a, z: same_text(a, z, T("param", "y"), T("c", "cdylib"))) or
                    re.search(r"::contains$", r2.a[0]) and r2.a[2] is T("f", el, "kind") and plain(r2.a[3]) is T("c", "cdylib"))
        ok = p.end == "ret" and r.op == "call" and re.search(r"Iterator>?::any$", r.a[0]) and r.a[2] is tg and picks(cx, r.a[3], el, kinds)
        cx.ob("application-has-a-cdylib-target", W, bool(ok), show(r)[:300])
    W = WS + "Workspace::find_package_path"
    seen = set()
    for p in cx.run(W, FSW + [r"Path::parent$"], unit=U, branches=anyb):
        fd = [t for t, w, h in variants_on(p, "Option") if t.op == "call" and re.search(r"Iterator>?::find$", t.a[0])]
        ok = p.end == "ret" and bool(fd) and fd[0].a[2] is pk and picks(cx, fd[0].a[3], el, lambda q, r: same_text(q, r, T("f", el, "name"), T("param", "package_name")))
        if not cx.ob("package-is-looked-for", W, ok, desc(p)):
            continue
        if some_of(p.ret) is not None:
            seen.add("some")
            r = lossy(some_of(p.ret))
            par = r.a[0] if r.op == "vf" else T("none")
            cx.ob("directory-of-its-manifest", W, par.op == "call" and par.a[0].endswith("Path::parent") and lossy(par.a[2]) is T("f", T("vf", fd[0], "Some", "0"), "manifest_path"), show(p.ret)[:200])
        else:
            seen.add("none")
            cx.ob("none-only-if-unknown", W, any(w == "None" for t, w, h in variants_on(p, "Option")), desc(p))
    cx.ob("all-cases", W, seen == {"some", "none"}, str(seen))
    for n, ty in (("get_target_dir", "target_directory"), ("get_root_dir", "workspace_root")):
        f = cx.fn_opt(WS + "Workspace::" + n, U)
        for p in cx.run(f, FSW, unit=U, branches=anyb) if f else []:
            cx.ob("directory-is-the-one-named", f["p"], p.end == "ret" and lossy(p.ret) is T("f", slf, ty), show(p.ret)[:200])


# ------------------------------------------------------------------ G07
@check("G07", ("vertigo_macro",))
def g07(cx):
    U7, M = "vertigo_macro", "vertigo_macro::"
    W = M + "include_static::bundle_file"
    src, written = T("param", "file_path"), T("param", "file")
    watch = [r"WasmPath::\w+$", r"env::var\w*$", r"Path(Buf)?::\w+$", r"fs::\w+$", r"File::\w+$"]

    def between_quotes(t):
        t = plain(t)
        if t.op == "call" and t.a[0].endswith("::index") and plain(t.a[2]) is written:
            r = t.a[3]
            end = r.a[4] if r.op == "agg" and len(r.a) > 4 else None
            return end is not None and is_const(r.a[3], 1) and end.op == "bin" and end.a[0] == "Sub" and is_const(end.a[2], 1) and end.a[1].op in ("call", "len") and end.a[1].has(written)
        return t.op == "call" and t.a[0].endswith("str::trim_matches") and plain(t.a[2]) is written and plain(t.a[3]).op == "c" and plain(t.a[3]).a[0] in (34, '"')

    def beside(p, i, t):
        """is the path t, made at step i, the written one in the folder of the source?"""
        t = wpath(t)
        if t.op == "call" and t.a[0].endswith("WasmPath::new"):
            t = t.a[2]
        if t is src:
            st = [e for e in p.trace[:i] if e.kind == "call" and e.args and e.args[0] is src and re.search(r"PathBuf::(pop|push|set_file_name)$", e.name)]
            k = [e.name.rsplit("::", 1)[-1] for e in st]
            return k in (["pop", "push"], ["set_file_name"]) and between_quotes(st[-1].args[1])
        if t.op == "call" and re.search(r"Path(Buf)?::(with_file_name|join)$", t.a[0]) and between_quotes(t.a[3]):
            d = t.a[2]
            return d is src if t.a[0].endswith("with_file_name") else d.op == "vf" and d.a[0].op == "call" and d.a[0].a[0].endswith("Path::parent") and d.a[0].a[2] is src
        return False

    seen = set()
    for p in cx.run(W, watch, unit=U7, branches=anyb, opaque=opq(r"WasmPath::(new|push|read|save|save_with_hash|exists|file_name|as_string)$")):
        env = {}
        for i, e in ncalls(p, r"env::var(_os)?$"):
            env[plain(e.args[0]).a[0]] = (outcome_or_bound(p, i), T("vf", e.res, "Ok", "0"))
        sv = ncalls(p, r"WasmPath::save\w*$")
        there = [(b.args[0], b.args[1]) for b in brs(p) if b.args[0].op == "call" and b.args[0].a[0].endswith("WasmPath::exists")]
        ex = ncalls(p, r"WasmPath::exists$")
        found = [i for i, e in ex if beside(p, i, e.args[0])]
        if not cx.ob("file-is-the-one-beside-the-source", W, p.end == "ret" and len(found) == len(ex) == 1 and len(there) == 1, desc(p)):
            continue
        file = ex[0][1].args[0]
        ok = agg_of(p.ret, "Result", "Ok")
        if there[0][1] == 0:
            seen.add("missing")
            cx.ob("missing-file-is-an-error", W, agg_of(p.ret, "Result", "Err") and not sv, desc(p))
            continue
        public = env.get("VERTIGO_PUBLIC_PATH", (None, None))
        if public[0] != "Ok":
            seen.add("no address")
            cx.ob("no-public-path-is-an-error", W, agg_of(p.ret, "Result", "Err"), desc(p))
            continue
        if not cx.ob("file-is-copied", W, ok and len(sv) == 1 and sv[0][1].name.endswith("save_with_hash"), desc(p)):
            continue
        e = sv[0][1]
        got = plain(e.args[1])
        cx.ob("copy-has-the-content-of-the-file", W, got.op == "call" and got.a[0].endswith("WasmPath::read") and got.a[2] is file, show(got)[:200])
        # where it is copied to
        def pieces(t):
            t = plain(t)
            if t.op == "call" and t.a[0].endswith("WasmPath::file_name"):
                return [("name",)] if t.a[2] is file else [show(t)]
            return joinp(t)
        root = e.args[0].a[2] if e.args[0].op == "call" and e.args[0].a[0].endswith("WasmPath::new") else e.args[0]
        at = pieces(root)
        for _, x in [x for x in ncalls(p, r"WasmPath::push$") if x[1].args[0] is e.args[0]]:
            for y in (x.args[1].a[3:] if x.args[1].op == "agg" else [x.args[1]]):
                at += pieces(y)
        at = [x[0] if isinstance(x, tuple) and len(x) == 1 else x for x in at]
        base = env.get("CARGO_TARGET_DIR", ("Err", None))
        tgt = env.get("TARGET", ("Err", None))
        want = [base[1] if base[0] == "Ok" else "target", tgt[1] if tgt[0] == "Ok" else "wasm32-unknown-unknown", "release", "static", "included", "name"]
        seen.add((base[0], tgt[0]))
        cx.ob("copied-where-the-build-looks-for-it", W, at == want, str([show(x) if isinstance(x, T) else x for x in at])[:300])
        j = joined(p, plain(p.ret.a[3]))
        cx.ob("address-is-the-public-path-and-the-name", W, j == [public[1], "/", e.res], show(p.ret)[:250])
    cx.ob("all-cases", W, {"missing", "no address", ("Ok", "Err"), ("Err", "Err")} <= seen, str(seen))
    # what the macro becomes
    W = M + "include_static::include_static_inner"
    ends = set()
    for p in cx.run(W, [r"bundle_file$", r"ToTokens>?::to_tokens$", r"Diagnostic::\w+$", r"abort\w*$", r"Span::\w+$", r"ToString>?::to_string$", r"SourceFile::\w+$"], unit=U7, branches=anyb, opaque=opq(r"bundle_file$")):
        b = ncalls(p, r"bundle_file$")
        if not cx.ob("file-is-looked-up-once", W, len(b) == 1 and plain(b[0][1].args[1]).has(T("param", "input")) or len(b) == 1 and plain(b[0][1].args[1]) is T("param", "input"), desc(p)):
            continue
        cx.ob("source-is-the-one-the-macro-is-written-in", W, b[0][1].args[0].op == "default" or "call_site" in show(b[0][1].args[0]), show(b[0][1].args[0])[:200])
        o = outcome(p, b[0][0])
        out = calls(p, r"to_tokens$")
        told = calls(p, r"Diagnostic::(emit|abort)$") or p.end != "ret"
        ends.add(o)
        if o == "Ok":
            cx.ob("macro-is-the-address", W, p.end == "ret" and len(out) == 1 and plain(out[0].args[0]) is T("vf", b[0][1].res, "Ok", "0") and not told, desc(p))
        else:
            cx.ob("problem-is-a-compile-error", W, bool(told), desc(p))
    cx.ob("all-cases", W, ends == {"Ok", "Err"}, str(ends))
    saved_files(cx, M + "wasm_path::", U7)
    for m in ("exists", "push"):
        w = M + "wasm_path::WasmPath::" + m
        n = 0
        for p in cx.run(w, watch, unit=U7, branches=anyb):
            me = T("f", T("param", "self"), "path")
            if m == "exists":
                cx.ob("existence-is-asked-of-the-disk", w, p.end == "ret" and p.ret.op == "call" and re.search(r"Path::(exists|is_file)$", p.ret.a[0]) and p.ret.a[2] is me, show(p.ret))
                n += 1
            else:
                t = sum(1 for b in brs(p) if b.args[0].op == "discr" and b.args[0].a[0] is T("next", T("param", "names")) and b.args[1] == "Some")
                ps_ = calls(p, r"PathBuf::(push|extend)$")
                cx.ob("every-part-is-appended", w, p.end == "ret" and len(ps_) == t and all(e.args[0] is me and plain(e.args[1]) is T("item", T("param", "names")) for e in ps_), desc(p))
                n += t
        cx.floor(w + " uses", n, 1)
