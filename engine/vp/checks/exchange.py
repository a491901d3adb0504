"""S11: values cross the border between server and application whole."""
import re

from ..core import check
from ..q import calls, ncalls, brs, desc, afields, agg_of, finished
from ..term import T, show
from . import ssr
from .ssr import opq, anyb, plain, imports, crun, WNO, WI
from .wire import WIDTH

U, S = "vertigo_cli", ssr.S
D = S + "wasm::data_context::DataContext::"
SAME = r"::(into_boxed_slice|to_vec|to_owned|into_vec|from|into|clone|as_slice|as_ref|deref|index|borrow|unwrap|expect|as_mut_slice|deref_mut|as_mut|into_owned)$"
LIB = opq(r"vertigo::(MemoryBlock|JsValue)::|JsJson::")


def nat(t):
    """number without casts, conversions and the unwrapping of checked ones"""
    while True:
        u = t
        while u.op == "cast" and WIDTH.get(u.a[2], 8) >= 4:
            u = u.a[0]
        if u.op == "ovf":
            u = u.a[0]
        if u.op == "vf" and u.a[1] in ("Ok", "Some") and u.a[0].op == "call" and re.search(r"::(try_from|try_into|call|checked_add)$", u.a[0].a[0]):
            c = u.a[0]
            u = c if c.a[0].endswith("::call") else T("bin", "Add", c.a[2], c.a[3]) if c.a[0].endswith("checked_add") else c.a[2]
        if u.op == "call" and re.search(r"::(into|from|clone)$", u.a[0]) and len(u.a) == 3:
            u = u.a[2]
        if u is t:
            return t
        t = u


def total(t):
    """a sum of 32 bit numbers as the set of its parts; None when it is something else"""
    t = nat(t)
    if t.op == "bin" and t.a[0] in ("Add",):
        a, b = total(t.a[1]), total(t.a[2])
        return None if a is None or b is None else sorted(a + b, key=show)
    if t.op == "call" and re.search(r"::(saturating_add|wrapping_add)$", t.a[0]) and "usize" in t.a[0] + str(t.a[1]):
        a, b = total(t.a[2]), total(t.a[3])
        return None if a is None or b is None else sorted(a + b, key=show)
    if t.op == "call" and re.search(r"(Vec|\[T\])::len$", t.a[0]):
        return [T("len", bytes_of(t.a[2]))]
    if t.op == "len":
        return [T("len", bytes_of(t.a[0]))]
    return [t]


def bytes_of(t):
    while True:
        if t.op == "call" and re.search(SAME, t.a[0]) and len(t.a) == 3:
            t = t.a[2]
        elif t.op == "call" and re.search(r"::index$", t.a[0]) and agg_of(t.a[3], "RangeFull"):
            t = t.a[2]
        else:
            return t


def window(t):
    """(memory, start, end parts) of a part of memory"""
    t = bytes_of(t)
    if t.op == "vf" and t.a[1] == "Some" and t.a[0].op == "call" and re.search(r"::(get|get_mut)$", t.a[0].a[0]):
        t = t.a[0]
        base, r = t.a[2], t.a[3]
    elif t.op == "call" and re.search(r"::(index|index_mut)$", t.a[0]) and len(t.a) == 4:
        base, r = t.a[2], t.a[3]
    else:
        return None
    f = afields(r) if r.op == "agg" else {}
    if set(f) == {"start", "end"}:
        lo, hi = total(f["start"]), total(f["end"])
    elif set(f) == {"end"} and window(base) and not window(base)[2]:
        m, lo, _ = window(base)          # data[a..][..n]
        n = total(f["end"])
        return (m, lo, sorted(lo + n, key=show)) if n is not None else None
    elif set(f) == {"start"}:
        m = memory(base)
        return (m, total(f["start"]), None) if m is not None else None
    else:
        return None
    m = memory(base)
    return (m, lo, hi) if m is not None and lo is not None and hi is not None else None


def memory(t):
    t = bytes_of(t)
    if t.op == "call" and re.search(r"Memory::(data|data_mut)$", t.a[0]):
        return t.a[2]
    if t.op == "f" or t.op == "vf":
        return None
    return None


def export(t, name, kind):
    """t is what the application exports under that name"""
    if kind == "Memory" and t.op == "vf" and t.a[1] == "Some" and t.a[0].op == "call" and t.a[0].a[0].endswith("::get_memory"):
        c = t.a[0]
    elif t.op == "vf" and t.a[1] == "Some" and t.a[0].op == "call" and re.search(r"::(into_memory|into_func)$", t.a[0].a[0]):
        return export(T("vf", t.a[0].a[2], kind, "0"), name, kind)
    elif t.op == "vf" and t.a[1] == kind and t.a[0].op == "vf" and t.a[0].a[1] == "Some" and t.a[0].a[0].op == "call" and t.a[0].a[0].a[0].endswith("::get_export"):
        c = t.a[0].a[0]
    else:
        return None
    return c if c.a[-1].op == "c" and c.a[-1].a[0] == name else None


def source(p):
    """which of the two ways to reach the application's memory this path is about"""
    return {b.args[1] for b in brs(p) if b.args[0].op == "discr" and b.args[0].a[0].op == "param" and str(b.args[0].a[1]).endswith("DataContext") and b.name == "=" and isinstance(b.args[1], str)}


def filled(p, m, src):
    """a new map given every entry of src"""
    ins = [e for e in p.trace if e.kind == "call" and e.args and e.args[0] is m]
    if m.op != "call" or len(m.a) != 2 or not finished(p, lambda d: src in d.subs()):
        return False
    for e in ins:
        it = e.args[1].a[0] if len(e.args) == 3 and e.args[1].op == "f" else None
        if not e.name.endswith("::insert") or it is None or it.op != "item" or plain(it.a[0]) is not src or e.args[1] is not T("f", it, "0") or e.args[2] is not T("f", it, "1"):
            return False
    visited = any(b.args[0].op == "discr" and b.args[0].a[0].op == "next" and b.args[1] == "Some" for b in brs(p))
    return bool(ins) or not visited


def of_self(t):
    return any(x.op == "param" and x.a[0] == "self" for x in t.subs())


def fetched_in_time(p, data, after):
    """the memory is looked at after `after` (growing it moves it)"""
    i = [n for n, e in enumerate(p.trace) if e.kind == "call" and e.res is data]
    return bool(i) and (after is None or max(i) > after)


@check("S11", ("vertigo_cli", "vertigo_wasm"))
def s11(cx):
    # what the application passed
    for fn, dec in (("get_value", r"vertigo::JsValue::from_block$"), ("get_string_from", r"::(from_utf8|from_utf8_lossy|from_utf8_owned)$")):
        W, n, ways, err = D + fn, 0, set(), 0
        for p in cx.run(cx.fn(W, U), ["."], unit=U, opaque=LIB, branches=anyb):
            if p.end != "ret":
                continue
            d = [e for e in calls(p, dec)]
            if not cx.ob("what-was-passed-is-decoded", W, len(d) == 1, desc(p)):
                continue
            n += 1
            src = d[0].args[0]
            if fn == "get_value":
                fs = src if src.op == "call" and re.search(r"MemoryBlock::(from_slice|from)$", src.a[0]) else None
                if not cx.ob("the-bytes-are-copied-into-a-block", W, fs is not None, show(src)[:200]):
                    continue
                src = fs.a[2]
            w = window(src)
            ptr, size = T("param", "ptr"), T("param", "offset")
            ok = w is not None and w[1] == [ptr] and w[2] == sorted([ptr, size], key=show)
            cx.ob("exactly-the-bytes-that-were-passed", W, ok, f"decoded from {show(src)[:260]}")
            if w is not None:
                g = export(w[0], "memory", "Memory")
                cx.ob("read-from-the-application's-memory", W, g is not None and of_self(g), show(w[0])[:200])
            ways |= source(p)
            # result
            oc = [b.args[1] for b in brs(p) if b.args[0].op == "discr" and b.args[0].a[0] is d[0].res and b.name == "="]
            bad = bool(oc) and oc[-1] == "Err"
            if bad:
                err += 1
                cx.ob("undecodable-is-nothing", W, agg_of(p.ret, "JsValue", "Undefined") if fn == "get_value" else agg_of(p.ret, "Option", "None"), show(p.ret)[:160])
            else:
                v = T("vf", d[0].res, "Ok", "0")
                got = p.ret
                if fn == "get_string_from" and agg_of(got, "Option", "Some"):
                    got = plain(got.a[3])
                    v = v if not d[0].name.endswith("lossy") else d[0].res
                    ok = got is v
                elif fn == "get_string_from":
                    ok = got.op == "call" and got.a[0].endswith("::ok") and got.a[2] is d[0].res
                    err += ok
                else:
                    ok = got is v or got.op == "call" and re.search(r"unwrap_or(_else|_default)?$", got.a[0]) and got.a[2] is d[0].res
                cx.ob("the-decoded-value-is-given", W, ok, show(p.ret)[:200])
        cx.floor(f"{fn}: ways to read", n, 2)
        cx.ob("both-ways-to-reach-the-application", W, ways == {"Caller", "Store"}, str(sorted(ways)))
        cx.ob("undecodable-is-nothing", W, err >= 1, "no path for bytes that cannot be decoded")
    # what the application gets
    W, n, ways, none = D + "save_value", 0, set(), 0
    for p in cx.run(cx.fn(W, U), ["."], unit=U, opaque=LIB, branches=anyb):
        if p.end != "ret":
            continue
        val = T("param", "value")
        und = [b for b in brs(p) if b.args[0].op == "discr" and b.args[0].a[0] is val and b.name == "=" and b.args[1] == "Undefined"]
        und += [b for b in brs(p) if b.args[0].op == "bin" and val in b.args[0].a and any(isinstance(x, T) and agg_of(x, "JsValue", "Undefined") for x in b.args[0].a)
                and ((b.args[1] == 1) == (b.name == "=")) == (b.args[0].a[0] == "Eq")]
        al = [(i, e) for i, e in ncalls(p, r"TypedFunc::call$|Func::call$")]
        cp = [(i, e) for i, e in ncalls(p, r"::(clone_from_slice|copy_from_slice|write|copy_within|fill|swap_with_slice)$")]
        if und or not al:
            none += bool(und)
            cx.ob("only-the-absent-value-has-no-block", W, bool(und) and not al and not cp and p.ret.op == "c" and p.ret.a[0] == 0, f"{show(p.ret)[:80]} {desc(p)}")
            continue
        n += 1
        if not cx.ob("one-block-one-copy", W, len(al) == 1 and len(cp) == 1, desc(p)):
            continue
        i, a = al[0]
        f = a.args[0]
        f = f.a[0] if f.op == "vf" and f.a[1] == "Ok" else f
        g = export(f.a[2], "alloc", "Func") if f.op == "call" and f.a[0].endswith("::typed") else None
        if g is None and f.op == "call" and f.a[0].endswith("get_typed_func") and f.a[-1].op == "c" and f.a[-1].a[0] == "alloc":
            g = f
        cx.ob("block-is-allocated-by-the-application", W, g is not None and of_self(g), show(f)[:200])
        blk = [e.res for e in calls(p, r"vertigo::JsValue::to_snapshot$") if e.args[0] is T("param", "value")]
        vec = [e.res for e in calls(p, r"MemoryBlock::convert_to_vec$") if blk and e.args[0] in blk]
        if not cx.ob("the-value-itself-is-encoded", W, len(vec) == 1, desc(p)):
            continue
        length = [T("len", vec[0])]
        cx.ob("block-has-the-size-of-the-value", W, total(a.args[2]) == length, show(a.args[2])[:200])
        ptr = total(a.res)
        j, c = cp[0]
        if c.name.endswith("::write"):
            m, at, data = c.args[0], total(c.args[2]), bytes_of(c.args[3])
            ok = at == ptr and data is vec[0]
        else:
            w = window(c.args[0])
            m = w[0] if w else None
            ok = bool(w) and w[1] == ptr and w[2] == sorted(ptr + length, key=show) and bytes_of(c.args[1]) is vec[0]
            dm = [x for x in c.args[0].subs() if x.op == "call" and x.a[0].endswith("Memory::data_mut")]
            cx.ob("memory-is-looked-at-after-allocating", W, bool(dm) and fetched_in_time(p, dm[0], i), "allocating can move the memory")
        cx.ob("all-bytes-go-into-the-block", W, ok, f"{show(c.args[0])[:260]} := {show(c.args[-1])[:80]}")
        gm = export(m, "memory", "Memory") if m is not None else None
        cx.ob("written-to-the-application's-memory", W, gm is not None and of_self(gm), show(m)[:200] if m is not None else "?")
        cx.ob("address-of-the-block-is-returned", W, total(p.ret) == ptr, show(p.ret)[:200])
        ways |= source(p)
    cx.floor("save_value: ways to write", n, 2)
    cx.ob("both-ways-to-reach-the-application", W, ways == {"Caller", "Store"}, str(sorted(ways)))
    cx.ob("only-the-absent-value-has-no-block", W, none >= 1, "no path for it")
    # the functions given to the application read the call they got
    n = 0
    for pm, da in imports(cx):
        for q in crun(cx, da, [r"DataContext::\w+$"], branches=anyb, opaque=opq(WNO)):
            if q.end != "ret":
                continue
            n += 1
            g = calls(q, "get_value$")
            cx.ob("call-is-read-from-its-block", WI + "new (dom_access)", len(g) == 1 and [x.a[0] for x in g[0].args[1:]] == ["ptr", "offset"], desc(q)[:200])
    cx.floor("paths of a call", n, 5)
    W = WI + "wasm_callback"
    n = 0
    for p in cx.run(W, ["call_function$", "save_value$", r"from_store$"], unit=U, branches=anyb, opaque=opq("DataContext::|call_function$")):
        for e in calls(p, r"save_value$"):
            n += 1
            fs = e.args[0]
            me = T("param", "self")
            cx.ob("value-goes-to-this-instance", W, fs.op == "call" and fs.a[0].endswith("from_store") and fs.a[2] is T("f", me, "store") and fs.a[3] is T("f", me, "instance"), show(fs)[:160])
    cx.floor("values given to callbacks", n, 1)
    # what is looked up exists in the library
    ex = {f["p"].split("::")[-1]: f["sig"] for f in cx.crate("vertigo_wasm").fns if f.get("extern")}
    for name, sig in (("alloc", "fn(u32) -> u32"), ("wasm_callback", "fn(u64, u32) -> u64")):
        cx.ob("the-library-exports-what-is-called", "vertigo::" + name, ex.get(name) == sig, f"{ex.get(name)}, the server calls it as {sig}")
    # the application that runs is the one in the file
    W = S + "server_state::build_module_wasm"
    ok = bad = 0
    for p in cx.run(cx.fn(W, U), ["."], unit=U, branches=anyb, opaque=opq("MountPathConfig::")):
        if p.end != "ret":
            cx.ob("failures-are-answers", W, p.end != "panic", desc(p))
            continue
        tr = calls(p, r"MountPathConfig::translate_to_fs$")
        rd = calls(p, r"^std::fs::read$|Module::from_file$")
        md = calls(p, r"wasmtime::Module::(from_binary|new|from_file)$")
        fails = [b for b in brs(p) if b.args[0].op == "discr" and b.name == "=" and b.args[1] == "Err"]
        if agg_of(p.ret, "Result", "Ok") or p.ret.op == "call" and md and p.ret is md[-1].res:
            ok += 1
            mp = T("param", "mount_path")
            a = len(tr) == 1 and tr[0].args[0] is mp and plain(tr[0].args[1]) is T("f", mp, "wasm_path")
            b = len(md) == 1 and md[0].args[0].op == "param" and md[0].args[0].a[0] == "engine"
            path = T("vf", tr[0].res, "Ok", "0") if a else None
            if len(rd) == 1 and rd[0] not in md:
                b = b and plain(rd[0].args[0]) is path and bytes_of(md[0].args[1]) is T("vf", rd[0].res, "Ok", "0")
            else:
                b = b and md and md[0].name.endswith("from_file") and plain(md[0].args[1]) is path
            cx.ob("the-application-in-the-file-of-the-build", W, bool(a and b), desc(p))
            cx.ob("the-application-in-the-file-of-the-build", W, bool(md) and (p.ret.op == "call" or p.ret.a[3] is T("vf", md[0].res, "Ok", "0")), show(p.ret)[:160])
            cx.ob("failures-are-answers", W, not fails, desc(p))
        else:
            bad += 1
            cx.ob("failures-are-answers", W, bool(fails) and (agg_of(p.ret, "Result", "Err") or fails[0].args[0].a[0] in p.ret.subs()), f"{show(p.ret)[:100]} {desc(p)}")
    cx.floor("ways to load", ok, 1)
    cx.floor("failures of loading", bad, 3)
    W = S + "server_state::ServerState::new"
    ok = bad = 0
    for p in cx.run(cx.fn(W, U), ["."], unit=U, branches=anyb, opaque=opq("build_module_wasm$")):
        b = calls(p, "build_module_wasm$")
        if p.end != "ret" or not cx.ob("state-has-the-application", W, len(b) == 1, desc(p)):
            continue
        if agg_of(p.ret, "Result", "Ok"):
            ok += 1
            f = afields(p.ret.a[3])
            eng = b[0].args[0]
            env = plain(f["env"])
            while env.op == "call" and re.search(r"::(collect|from_iter|into_iter|from|extend)$", env.a[0]):
                env = env.a[2]
            cx.ob("state-has-the-application", W, f["module"] is T("vf", b[0].res, "Ok", "0") and plain(f["engine"]) is plain(eng) and plain(b[0].args[1]) is T("param", "mount_path"), show(p.ret)[:200])
            cx.ob("state-is-as-configured", W, plain(f["mount_path"]) is T("param", "mount_path") and f["port_watch"] is T("param", "port_watch") and (env is T("param", "env") or filled(p, env, T("param", "env"))), show(p.ret)[:300])
        else:
            bad += 1
            cx.ob("failures-are-answers", W, agg_of(p.ret, "Result", "Err") or b[0].res in p.ret.subs(), show(p.ret)[:100])
    cx.floor("states made", ok, 1)
    cx.floor("failed states", bad, 1)
