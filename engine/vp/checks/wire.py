"""The binary format that crosses the JavaScript/WebAssembly boundary, and JSON conversion."""
import re
from collections import Counter
from ..core import check, Anchor
from ..q import *
from ..term import T, show
from ..interp import MUTATES
from .reactive import anyb

JV = "vertigo::driver_module::js_value::"
VALUE, JSON = JV + "js_value_struct::", JV + "js_json_struct::"
MB, MR, MW = JV + "memory_block::MemoryBlock::", JV + "memory_block_read::MemoryBlockRead::", JV + "memory_block_write::MemoryBlockWrite::"
WIDTH = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "u64": 8, "i64": 8, "f64": 8}
LEN = re.compile(r"::len$")
KINDS = [("JsValue", VALUE, "decode_js_value_inner"), ("JsJson", JSON, "decode_js_json_inner")]


def nocast(t):
    while t.op in ("cast", "str"):
        t = t.a[0]
    return t


def lenof(t):
    """X when t is the length of X, through widening casts; None otherwise"""
    t = nocast(t)
    return t.a[2] if t.op == "call" and LEN.search(t.a[0]) else None


def narrowed(t):
    """target type of a cast of a length to less than 32 bits (usize is 32 bits wide in WebAssembly)"""
    while t.op == "cast":
        if WIDTH.get(t.a[2], 8) < 4:
            return t.a[2]
        t = t.a[0]
    return None


def linear(t, loops, out=None, dom=None):
    """a sum as a multiset of addends: ('n', None) counts bytes"""
    out = Counter() if out is None else out
    t = nocast(t)
    if t.op == "ovf":
        return linear(t.a[0], loops, out, dom)
    if t.op == "bin" and t.a[0] == "Add":
        linear(t.a[1], loops, out, dom)
        return linear(t.a[2], loops, out, dom)
    if t.op == "c" and isinstance(t.a[0], int):
        out["n"] += t.a[0]
        return out
    if lenof(t) is not None:
        out[("len", lenof(t))] += 1
        return out
    if t.op == "call" and t.a[0].endswith("::get_size"):
        out[("rec", t.a[2])] += 1
        return out
    if t.op == "call" and t.a[0].endswith("::sum") and t.a[2].op == "mapped":
        if t.a[2].a[1].op == "item" and t.a[2].a[1].a[0].op == "empty":
            return out       # a sum over nothing
        body = linear(t.a[2].a[1], loops)
        out[("each", frozenset(body.items()))] += 1
        return out
    if t.op == "loop" and t in loops:
        vals = loops[t]
        init = [v for v in vals if t not in v.subs()]
        step = [v for v in vals if t in v.subs()]
        if len(init) == 1 and len(step) == 1:
            linear(init[0], loops, out)
            inc = linear(step[0], {k: v for k, v in loops.items() if k is not t})
            if inc.get(("?", t)) == 1:
                del inc[("?", t)]
                out[("each", frozenset(inc.items()))] += 1
                return out
    out[("?", t)] += 1
    return out


def variant_of(path, adt, names):
    """variants of `self` this path stands for"""
    vs = set(names)
    for e in brs(path):
        if e.args[0].op == "discr" and str(e.args[0].a[1]).endswith("::" + adt) and e.args[0].a[0].op == "param":
            vs &= {e.args[1]} if e.name == "=" else vs - set(e.args[1])
    return vs


def variants(cx, adt):
    cr = cx.crate()
    for k, v in cr.adts.items():
        if k.endswith("js_value::" + ("js_value_struct::" if adt == "JsValue" else "js_json_struct::") + adt):
            return [x["n"] if isinstance(x, dict) else x[0] for x in v["v"]]
    raise Anchor("enum " + adt)


def size_of_write(events):
    """bytes a sequence of writer events produces"""
    out = Counter()
    for e in events:
        if e.name.endswith("write_to"):
            out[("rec", e.args[0])] += 1
            continue
        x = e.args[1]
        if x.op == "agg" and x.a[0] == "array":
            out["n"] += len(x.a[3:])
        elif x.op == "call" and x.a[0].endswith("to_be_bytes"):
            out["n"] += WIDTH[x.a[0].split("::")[0].rsplit(" ", 1)[-1]]
        else:
            out[("len", x)] += 1
    return out


def writer(cx, adt, mod):
    """{variant: (events without an element, events of one element)}"""
    names = variants(cx, adt)
    other = "JsJson" if adt == "JsValue" else "JsValue"
    out = {}
    for p in cx.run(mod + adt + "::write_to", [r"::write_to$", r"MemoryBlockWrite::write$"], branches=anyb,
                    opaque=lambda q: q.endswith(other + "::write_to") or q.endswith("MemoryBlockWrite::write")):
        if not cx.ob("writer-returns", adt, p.end == "ret", desc(p)):
            continue
        vs = variant_of(p, adt, names)
        cx.ob("one-variant-per-layout", f"{adt}::{sorted(vs)}", len(vs) == 1, desc(p))
        evs = calls(p, r"::write_to$|MemoryBlockWrite::write$")
        for v in vs:
            a = out.setdefault(v, [None, None])
            el = [e for e in evs if any(t.op == "item" for x in e.args for t in x.subs())]
            if el:
                cx.ob("one-layout-per-element", f"{adt}::{v}", a[1] is None or a[1] == evs, desc(p))
                a[1] = evs
                cx.ob("every-element-is-written", f"{adt}::{v}", finished(p), desc(p))
            else:
                cx.ob("every-element-is-written", f"{adt}::{v}", not any(e.args[0].op == "discr" and e.args[0].a[0].op == "next" and e.args[1] == "Some" for e in brs(p)), desc(p))
                cx.ob("one-layout", f"{adt}::{v}", a[0] is None or a[0] == evs, desc(p))
                a[0] = evs
    for v in names:
        cx.ob("variant-is-written", f"{adt}::{v}", v in out, "")
    return {v: (a[0] or [], [e for e in a[1] or [] if e not in (a[0] or [])], a[1] or a[0] or []) for v, a in out.items()}


@check("W01")
def w01(cx):
    for adt, mod, _ in KINDS:
        names = variants(cx, adt)
        cx.floor(f"{adt} variants", len(names), 14 if adt == "JsValue" else 7)
        wr = writer(cx, adt, mod)
        seen = {}
        other = "JsJson" if adt == "JsValue" else "JsValue"
        for p in cx.run(mod + adt + "::get_size", [r"::get_size$", r"::len$"], branches=anyb, opaque=lambda q: q.endswith(other + "::get_size")):
            if not cx.ob("size-returns", adt, p.end == "ret", desc(p)):
                continue
            size = linear(p.ret, cx.last.loopvals)
            for v in variant_of(p, adt, names):
                w = wr.get(v)
                if w is None:
                    continue
                want = size_of_write(w[0])
                if w[1]:
                    want[("each", frozenset(size_of_write(w[1]).items()))] += 1
                if any(x.op == "item" and x.a[0].op == "empty" for x in p.ret.subs()):
                    want = size_of_write(w[0])
                seen[v] = True
                cx.ob("size-is-what-is-written", f"{adt}::{v}", size == want, f"get_size {show_size(size)}, written {show_size(want)}")
        for v in names:
            cx.ob("variant-has-size", f"{adt}::{v}", v in seen, "")
        # counts and lengths fit the field that carries them
        for v, w in wr.items():
            for e in w[2]:
                x = e.args[1]
                if x.op == "call" and x.a[0].endswith("to_be_bytes") and lenof(x.a[2]) is not None:
                    cx.ob("count-fits-its-field", f"{adt}::{v}", narrowed(x.a[2]) is None, f"number of {show(lenof(x.a[2]))} is cut to {narrowed(x.a[2])}")
    n = 0
    for p in cx.run(VALUE + "JsValue::to_snapshot", [r"MemoryBlock::new$", r"::get_size$", r"JsValue::write_to$", r"MemoryBlockWrite::(new|get_block)$"],
                    opaque=lambda q: re.search(r"MemoryBlock::new$|::get_size$|::write_to$", q)):
        n += 1
        new, size, wr = calls(p, r"MemoryBlock::new$"), calls(p, r"get_size$"), calls(p, r"write_to$")
        ok = p.end == "ret" and len(new) == 1 and len(wr) == 1 and nocast(new[0].args[0]) is size[0].res and size[0].args[0] is T("param", "self") \
            and wr[0].args[0] is T("param", "self") and wr[0].args[1].has(new[0].res) and p.ret is new[0].res
        cx.ob("snapshot-has-the-computed-size", "JsValue::to_snapshot", ok, desc(p))
    cx.floor("snapshot paths", n, 1)


def show_size(c):
    return "{" + ", ".join(sorted(f"{(k if k == 'n' else k[0] + ' ' + (show(k[1]) if isinstance(k[1], T) else show_size(Counter(dict(k[1])))))}*{v}" for k, v in c.items())) + "}"


# ------------------------------------------------------------------------------------------------ decode
def plan(events):
    """writer events -> [('be', type, value term) | ('bytes', X) | ('rec', type, X)]"""
    out = []
    for e in events:
        if e.name.endswith("write_to"):
            out.append(("rec", e.name.split("::")[-2], e.args[0]))
            continue
        x = e.args[1]
        if x.op == "agg" and x.a[0] == "array":
            for y in x.a[3:]:
                out.append(("be", "u8", nocast(y)))
        elif x.op == "call" and x.a[0].endswith("to_be_bytes"):
            out.append(("be", x.a[0].split("::")[0].rsplit(" ", 1)[-1], x.a[2]))
        elif x.op == "call" and re.search(r"to_(le|ne)_bytes$", x.a[0]):
            out.append(("not big endian", x.a[0], x.a[2]))
        else:
            out.append(("bytes", x))
    return out


def match_reads(pl, reads):
    """bind what the writer wrote to what the reader reads at the same place; (bindings, what is wrong)"""
    b, i, pend = {}, 0, {}
    for it in pl:
        if i >= len(reads):
            return b, f"nothing is read for {it[0]} {it[1]}"
        e = reads[i]
        if it[0] == "be":
            want = "get_byte" if it[1] == "u8" else "get_" + it[1]
            if not e.name.endswith("::" + want):
                return b, f"{it[1]} is written where {e.name.split('::')[-1]} reads"
            X = lenof(it[2])
            if X is not None:
                b[("len", X)] = e.res
            else:
                b[nocast(it[2])] = e.res
        elif it[0] == "bytes":
            if not e.name.endswith("::get_vec"):
                return b, f"bytes are written where {e.name.split('::')[-1]} reads"
            if nocast(e.args[1]) is not b.get(("len", it[1])):
                return b, f"{show(e.args[1])} bytes are read, their number was written as {show(b.get(('len', it[1]), T('c', 'nothing')))}"
            b[it[1]] = e.res
        elif it[0] == "rec":
            want = "decode_js_value_inner" if it[1] == "JsValue" else "decode_js_json_inner"
            if not e.name.endswith("::" + want):
                return b, f"a {it[1]} is written where {e.name.split('::')[-1]} reads"
            b[it[2]] = e.res
        else:
            return b, f"{it[0]}: {it[1]}"
        i += 1
    if i < len(reads):
        return b, f"{reads[i].name.split('::')[-1]} reads something that is not written"
    return b, None


def carries(t, r):
    """t is the decoded value r: itself, its Ok payload, or the string made of its bytes"""
    t = nocast(t)
    while True:
        if t is r:
            return True
        if t.op == "vf" and t.a[1] in ("Ok", "Some") and t.a[2] == "0":
            t = t.a[0]
        elif t.op == "call" and re.search(r"String::from_utf8$|str::from_utf8$", t.a[0]):
            t = t.a[2]
        else:
            return False


@check("W02")
def w02(cx):
    RD = r"MemoryBlockRead::get_(byte|u16|u32|i32|u64|i64|f64|vec)$|decode_js_\w+_inner$"
    for adt, mod, dec in KINDS:
        wr = writer(cx, adt, mod)
        tags = {}
        for v, w in wr.items():
            pl = plan(w[2])
            ok = bool(pl) and pl[0][:2] == ("be", "u8") and pl[0][2].op == "c"
            cx.ob("starts-with-its-tag", f"{adt}::{v}", ok, str(pl[:1]))
            if ok:
                cx.ob("tags-are-distinct", f"{adt}::{v}", pl[0][2].a[0] not in tags, f"{pl[0][2].a[0]} is also the tag of {tags.get(pl[0][2].a[0])}")
                tags[pl[0][2].a[0]] = v
        fit = set()
        me = mod + dec
        opq = lambda q: "MemoryBlockRead::get_" in q and not q.endswith("get_string") or re.search(r"decode_js_\w+_inner$", q) and not q.endswith(dec)
        ps = cx.run(me, [RD, r"HashMap.*::insert$", r"Vec::push$", r"from_utf8"], opaque=opq, branches=anyb, inline=lambda q: q.endswith("from_byte") or q.endswith("get_string"))
        n = 0
        for p in ps:
            reads = calls(p, RD)
            if not cx.ob("decoder-answers", dec, p.end == "ret" and p.ret is not None, desc(p)) or not reads:
                continue
            n += 1
            head = reads[0]
            cx.ob("reads-the-tag-first", dec, head.name.endswith("get_byte"), desc(p))
            tag = [e.args[1] for e in brs(p) if e.name == "=" and nocast(e.args[0]) is head.res and isinstance(e.args[1], int)]
            if not tag:
                cx.ob("unknown-tag-is-an-error", dec, agg_of(p.ret, "Result", "Err"), desc(p))
                continue
            v = tags.get(tag[-1])
            if v is None:
                cx.ob("unknown-tag-is-an-error", f"{dec}: tag {tag[-1]}", agg_of(p.ret, "Result", "Err"), desc(p))
                continue
            failed = [e for e in brs(p) if e.args[1] == "Err" and e.name == "=" and e.args[0].op == "discr"]
            where = f"{dec}: {v}"
            if failed:
                cx.ob("error-is-passed-on", where, agg_of(p.ret, "Result", "Err"), desc(p))
                continue
            if not cx.ob("right-variant", where, agg_of(p.ret, "Result", "Ok") and agg_of(p.ret.a[3], adt, v), show(p.ret)[:300]):
                continue
            w = wr[v]
            base, elem = plan(w[0]), plan(w[1])
            its = [e for e in brs(p) if e.args[0].op == "discr" and e.args[0].a[0].op == "next"]
            loop = [e for e in its if e.args[1] == "Some"]
            if its:
                cx.ob("reads-every-element", where, bool(elem) and finished(p) or not loop, desc(p))
            bind, wrong = match_reads((base + elem) if loop else base, reads)
            cx.ob("reads-what-was-written", where, wrong is None, f"{wrong}: {desc(p)}")
            if wrong:
                continue
            val = p.ret.a[3]
            S = lambda k="0": T("vf", T("param", "self"), v, k)
            payload = val.a[3:]
            if its or elem:
                cnt = bind.get(("len", S()))
                dom = its[0].args[0].a[0].a[0] if its else None
                dom_ok = dom is not None and agg_of(dom, "Range") and ev(afields(dom)["start"], {}) == 0 and nocast(afields(dom)["end"]) is cnt
                cx.ob("as-many-elements-as-announced", where, dom_ok, show(dom) if dom is not None else desc(p))
                cont = payload[0] if payload else None
                adds = [e for e in p.trace if e.kind == "call" and e.args and e.args[0] is cont and e.name.rsplit("::", 1)[-1] in ("insert", "push")]
                if loop:
                    it = T("item", S())
                    want = [it] if [x for x in elem if x[0] == "rec"][-1][2] is it else [T("f", it, "0"), T("f", it, "1")]
                    ok = len(adds) == 1 and len(adds[0].args) == len(want) + 1 and all(carries(a, bind.get(w_)) for a, w_ in zip(adds[0].args[1:], want))
                    cx.ob("element-is-kept", where, ok, desc(p))
                    fit.add(v)
                else:
                    cx.ob("nothing-is-added", where, not adds, desc(p))
            else:
                ok = all(carries(t, bind.get(S(n_))) for n_, t in zip(val.a[2], payload))
                cx.ob("value-is-what-was-read", where, ok, show(val)[:300])
                fit.add(v)
        cx.floor(f"{dec} paths", n, len(wr))
        for v in wr:
            cx.ob("variant-is-decoded", f"{dec}: {v}", v in fit, "")
    for p in cx.run(VALUE + "JsValue::from_block", [r"decode_js_value_inner$", r"MemoryBlockRead::new$"], opaque=lambda q: q.endswith("decode_js_value_inner") or q.endswith("MemoryBlockRead::new")):
        d = calls(p, r"decode_js_value_inner$")
        ok = p.end == "ret" and len(d) == 1 and p.ret is d[0].res and d[0].args[0].op == "call" and d[0].args[0].a[2] is T("param", "block")
        cx.ob("whole-block-is-decoded", "JsValue::from_block", ok, desc(p))


# ------------------------------------------------------------------------------------------------ primitives and memory
def reads_at(t, k):
    """t is the byte at offset + k of the block"""
    if t.op == "call" and re.search(r"Index.*::index$", t.a[0]):
        if not ends_field(t.a[2], "block"):
            return False
        i = linear(t.a[3], {})
        off = [x for x in i if x != "n" and x[0] == "?" and ends_field(x[1], "offset")]
        return len(off) == 1 and i[off[0]] == 1 and i["n"] == k and len([x for x in i if x != "n"]) == 1
    return False


def slice_at(t, n):
    """t is the n bytes from offset on"""
    t = nocast(t)
    while t.op in ("vf", "call") and (t.op == "vf" or re.search(r"try_into$|try_from$|unwrap$|expect$", t.a[0])):
        t = t.a[0] if t.op == "vf" else t.a[2]
    if t.op == "call" and re.search(r"Index.*::index$", t.a[0]) and ends_field(t.a[2], "block") and agg_of(t.a[3], "Range"):
        f = afields(t.a[3])
        a, b = linear(f["start"], {}), linear(f["end"], {})
        b.subtract(a)
        b = {k: v for k, v in b.items() if v}
        off = [x for x in a if x != "n"]
        return b == ({"n": n} if isinstance(n, int) else {("?", n): 1}) and len(off) == 1 and ends_field(off[0][1], "offset") and not a["n"]
    return False


@check("W03")
def w03(cx):
    cr = cx.crate()
    # writers: exactly the big-endian bytes of the value, appended
    n = 0
    for ty in ("u8", "u16", "u32", "i32", "u64", "i64", "f64"):
        f = MW + "write_" + ty
        for p in cx.run(f, [r"MemoryBlockWrite::write$"], opaque=lambda q: q.endswith("MemoryBlockWrite::write")):
            w = calls(p, r"MemoryBlockWrite::write$")
            x = w[0].args[1] if len(w) == 1 else T("undef")
            val = T("param", "value")
            if ty == "u8":
                ok = x.op == "agg" and x.a[0] == "array" and len(x.a[3:]) == 1 and nocast(x.a[3]) is val or x.op == "call" and x.a[0] == "u8::to_be_bytes" and nocast(x.a[2]) is val
            else:
                ok = x.op == "call" and x.a[0].split("::")[-1] == "to_be_bytes" and x.a[0].split("::")[0].endswith(ty) and x.a[2] is val
            n += 1
            cx.ob("writes-its-bytes-big-endian", f, p.end == "ret" and len(w) == 1 and ok, desc(p))
    for p in cx.run(MW + "write", [r"MemoryBlock::write$"], opaque=lambda q: q.endswith("MemoryBlock::write"), stores=lambda t, v: True):
        w = calls(p, r"MemoryBlock::write$")
        ok = p.end == "ret" and len(w) == 1 and ends_field(w[0].args[0], "block") and ends_field(w[0].args[1], "offset") and w[0].args[2] is T("param", "data")
        cx.ob("appends-at-the-offset", MW + "write", ok, desc(p))
        cx.ob("offset-moves-past-what-was-written", MW + "write", moved(p, Counter({("len", T("param", "data")): 1})), desc(p))
        n += 1
    for p in cx.run(MW + "new", []):
        ok = agg_of(p.ret, "MemoryBlockWrite") and ev(afields(p.ret)["offset"], {}) == 0 and afields(p.ret)["block"] is T("param", "block")
        cx.ob("starts-at-the-beginning", MW + "new", ok, show(p.ret))
    # readers
    for ty in ("byte", "u16", "u32", "i32", "u64", "i64", "f64"):
        f = MR + "get_" + ty
        wd = WIDTH.get(ty, 1)
        for p in cx.run(f, [r"from_\w+_bytes$", r"Index"], stores=lambda t, v: True):
            r = p.ret
            while r.op == "cast" and r.a[1][1:] == r.a[2][1:] and r.a[2] == ty and r.a[1][0] in "iu":
                r = T("call", r.a[0].a[0].replace(r.a[1], ty), *r.a[0].a[1:]) if r.a[0].op == "call" else r.a[0]
            if ty == "byte":
                ok = reads_at(r, 0)
            else:
                ok = r.op == "call" and r.a[0].endswith(ty + "::from_be_bytes")
                if ok:
                    x = r.a[2]
                    ok = x.op == "agg" and x.a[0] == "array" and len(x.a[3:]) == wd and all(reads_at(b, k) for k, b in enumerate(x.a[3:])) or slice_at(x, wd)
            n += 1
            cx.ob("reads-its-bytes-big-endian", f, p.end == "ret" and ok, show(r)[:300])
            cx.ob("offset-moves-past-what-was-read", f, moved(p, Counter({"n": wd})), desc(p))
    for p in cx.run(MR + "get_vec", [r"Index"], stores=lambda t, v: True):
        n += 1
        cx.ob("reads-the-asked-number-of-bytes", MR + "get_vec", p.end == "ret" and slice_at(p.ret, T("param", "len")), show(p.ret)[:300])
        cx.ob("offset-moves-past-what-was-read", MR + "get_vec", moved(p, Counter({("?", T("param", "len")): 1})), desc(p))
    for p in cx.run(MR + "get_string", [r"get_vec$", r"from_utf8"], opaque=lambda q: q.endswith("get_vec"), branches=anyb):
        n += 1
        v = calls(p, r"get_vec$")
        ok = p.end == "ret" and len(v) == 1 and v[0].args[1] is T("param", "len")
        good = agg_of(p.ret, "Result", "Ok") and carries(p.ret.a[3], v[0].res) if ok else False
        bad = agg_of(p.ret, "Result", "Err") and any(e.args[1] == "Err" for e in brs(p))
        cx.ob("string-is-its-bytes-or-an-error", MR + "get_string", ok and (good or bad) and not calls(p, "lossy|unchecked"), desc(p))
    for p in cx.run(MR + "new", [r"convert_to_vec$"], opaque=lambda q: q.endswith("convert_to_vec")):
        f = afields(p.ret)
        ok = agg_of(p.ret, "MemoryBlockRead") and ev(f["offset"], {}) == 0 and f["block"].op == "call" and f["block"].a[2] is T("param", "buffer")
        cx.ob("starts-at-the-beginning", MR + "new", ok, show(p.ret))
    cx.floor("primitive paths", n, 18)
    memory(cx, cr)


def moved(p, by):
    """the offset ends `by` further"""
    st = [e for e in p.trace if e.kind == "store" and ends_field(e.args[0], "offset")]
    if len(st) != 1:
        return False
    v = linear(st[0].args[1], {})
    off = [k for k in v if k != "n" and k[0] == "?" and ends_field(k[1], "offset")]
    if len(off) != 1 or v[off[0]] != 1:
        return False
    del v[off[0]]
    return +v == +by


UNSAFE = r"^(std|alloc|core)::(alloc::(alloc|dealloc|realloc|alloc_zeroed)|ptr::(copy|copy_nonoverlapping|write|read|write_bytes|write_unaligned|read_unaligned)|mem::(forget|transmute|zeroed)|slice::from_raw_parts(_mut)?|vec::Vec::from_raw_parts|string::String::(from_utf8_unchecked|from_raw_parts)|str::from_utf8_unchecked)$|get_unchecked"


def memory(cx, cr):
    # where memory is handled by hand
    where = {}
    for i in cr.insts.values():
        if not i["p"].startswith("vertigo::"):
            continue
        for nn, t in cr.calls(i):
            q = t["f"].get("p") or ""
            if re.search(UNSAFE, q):
                where.setdefault(i["p"], set()).add(q)
    for u, qs in sorted(where.items()):
        ok = u.startswith(JV + "memory_block::") or u.startswith("vertigo::driver_module::api::panic_message") and all("forget" not in q for q in qs)
        cx.ob("memory-is-handled-in-one-place", u, ok, str(sorted(qs)))
    cx.floor("functions handling memory by hand", len(where), 3)
    n = 0
    align = None
    for p in cx.run(MB + "new", [r"alloc::alloc", r"Layout::", r"is_null$", r"align_of$"], branches=anyb):
        n += 1
        al = calls(p, r"alloc::alloc(_zeroed)?$")
        if p.end != "ret":
            continue
        ok = len(al) == 1 and agg_of(p.ret, "MemoryBlock")
        if not cx.ob("block-is-allocated", MB + "new", ok, desc(p)):
            continue
        f = afields(p.ret)
        lay = al[0].args[0]
        src = lay
        while src.op == "vf":
            src = src.a[0]
        sz = src.op == "call" and re.search(r"Layout::(from_size_align|array|from_size_align_unchecked)$", src.a[0]) and src.has(T("param", "size")) and nocast(src.a[-2] if "size_align" in src.a[0] else src.a[-1]) is T("param", "size")
        cx.ob("layout-has-the-asked-size", MB + "new", bool(sz), show(src))
        cx.ob("block-knows-its-layout", MB + "new", f["ptr"] is al[0].res and f["layout"] is lay and f["size"] is T("param", "size"), show(p.ret)[:400])
        nul = [e for e in brs(p) if e.args[0].op == "call" and e.args[0].a[0].endswith("is_null") and e.args[0].a[2] is al[0].res and e.args[1] == 0]
        cx.ob("failed-allocation-is-not-used", MB + "new", bool(nul), desc(p))
        nz = [e for e in brs(p) if e.args[0].op == "bin" and any(x.op == "call" and x.a[0].endswith("Layout::size") or x is T("param", "size") or nocast(x) is T("param", "size") for x in e.args[0].a[1:])]
        cx.ob("zero-bytes-are-not-allocated", MB + "new", bool(nz), desc(p))
        # freed as a Vec<u8>: the alignment must be that of u8
        al_t = src.a[-1] if "size_align" in src.a[0] else None
        one = al_t is not None and (ev(al_t, {}) == 1 or al_t.op == "call" and al_t.a[0].endswith("align_of") and align_types(cx, cr) == {"u8"})
        align = "u8" if one or src.a[0].endswith("array") else "other"
    cx.ob("block-allocates", MB + "new", n > 0 and align is not None, "")
    for p in cx.run(MB + "write", [r"ptr::\w*copy", r"\*mut T::(offset|add)$", r"panic"], branches=anyb):
        cp = [e for e in calls(p, r"copy") ]
        if not cp:
            continue
        n += 1
        e = cp[0]
        dst, src = e.args[1], e.args[0]
        if "copy_from" in e.name:
            dst, src = src, dst
        inb = [(b.args[0], b.args[1]) for b in brs(p) if b.args[0].op == "bin" and bounds(b.args[0], b.args[1])]
        cx.ob("write-is-checked-against-the-size", MB + "write", len(cp) == 1 and bool(inb), desc(p))
        ok = dst.op == "call" and ends_field(dst.a[2], "ptr") and nocast(dst.a[3]) is T("param", "offset") and src is T("param", "data") and lenof(e.args[2]) is T("param", "data")
        cx.ob("writes-the-data-at-the-offset", MB + "write", ok, desc(p))
    ends = {p.end for p in cx.run(MB + "write", [r"copy"], branches=anyb, panics=True)}
    cx.ob("overflowing-write-does-not-return", MB + "write", "panic" in ends or "unreachable" in ends, str(ends))
    for p in cx.run(MB + "convert_to_vec", [r"mem::forget$", r"from_raw_parts$", r"ManuallyDrop"], drops=True):
        n += 1
        v = calls(p, r"from_raw_parts$")
        ok = len(v) == 1 and p.ret is v[0].res and ends_field(v[0].args[0], "ptr") and all(ends_field(nocast(x), "size") for x in v[0].args[1:3])
        cx.ob("vec-covers-the-block", MB + "convert_to_vec", ok, desc(p))
        cx.ob("block-is-not-freed-twice", MB + "convert_to_vec", bool(calls(p, r"mem::forget$|ManuallyDrop")) and not [e for e in p.trace if e.kind == "drop" and "MemoryBlock" in e.name], desc(p))
        cx.ob("freed-with-the-alignment-it-was-allocated-with", MB + "convert_to_vec", align == "u8", "the block is allocated with another alignment than the Vec<u8> that frees it")
    for p in cx.run("<" + JV + "memory_block::MemoryBlock as std::ops::Drop>::drop" if cr.inst("<" + JV + "memory_block::MemoryBlock as std::ops::Drop>::drop") else drop_of(cr), [r"alloc::dealloc$"]):
        n += 1
        d = calls(p, r"dealloc$")
        ok = len(d) == 1 and ends_field(d[0].args[0], "ptr") and ends_field(d[0].args[1], "layout")
        cx.ob("freed-with-its-layout", "MemoryBlock::drop", ok, desc(p))
    for p in cx.run(MB + "get_ptr_and_size", []):
        ok = p.ret.op == "agg" and ends_field(nocast(p.ret.a[3]), "ptr") and ends_field(nocast(p.ret.a[4]), "size")
        cx.ob("hands-out-pointer-and-size", MB + "get_ptr_and_size", ok, show(p.ret))
    for p in cx.run(MB + "get_ptr", []):
        cx.ob("hands-out-pointer", MB + "get_ptr", ends_field(nocast(p.ret), "ptr"), show(p.ret))
    cx.floor("memory paths", n, 4)


def align_types(cx, cr):
    out = set()
    for i in cr.insts.values():
        if i["p"].startswith(JV + "memory_block::"):
            for nn, t in cr.calls(i):
                if (t["f"].get("p") or "").endswith("mem::align_of"):
                    out |= {cr.ty(g) for g in t["f"].get("ga") or []}
    return out


def drop_of(cr):
    for p in cr.by_path:
        if "MemoryBlock" in p and p.endswith("::drop") and "Read" not in p and "Write" not in p:
            return p
    raise Anchor("MemoryBlock::drop")


def bounds(t, v):
    """the branch establishes offset + len(data) <= size"""
    a, b = t.a[1], t.a[2]
    L = linear(a, {})
    R = linear(b, {})
    need = Counter({("?", T("param", "offset")): 1, ("len", T("param", "data")): 1})
    isz = lambda c: len(+c) == 1 and all(k != "n" and k[0] == "?" and ends_field(k[1], "size") for k in c)
    if t.a[0] == "Lt":
        return isz(L) and +R == need and v == 0 or False
    if t.a[0] == "Le":
        return +L == need and isz(R) and v == 1
    if t.a[0] == "Gt":
        return +L == need and isz(R) and v == 0
    if t.a[0] == "Ge":
        return isz(L) and +R == need and v == 1
    return False


# ------------------------------------------------------------------------------------------------ argument blocks
ARG = "vertigo::driver_module::api::arguments::Arguments::"


@check("W04")
def w04(cx):
    MAP = r"HashMapMut::(insert|remove|get\w*|contains_key|clear|\w+)$"
    opq = lambda q: re.search(r"HashMapMut::|JsValue::from_block$|MemoryBlock::(new|get_ptr)$", q)
    ptr = T("param", "ptr")
    n = 0
    for p in cx.run(ARG + "alloc", [MAP, r"MemoryBlock::new$", r"MemoryBlock::get_ptr$"], opaque=opq):
        n += 1
        new, ins = calls(p, r"MemoryBlock::new$"), calls(p, r"HashMapMut::insert$")
        gp = calls(p, r"get_ptr$")
        ok = p.end == "ret" and len(new) == 1 and len(ins) == 1 and new[0].args[0] is T("param", "size") and gp and gp[0].args[0] is new[0].res \
            and ins[0].args[1] is gp[0].res and ins[0].args[2] is new[0].res and p.ret in [g.res for g in gp]
        cx.ob("allocated-block-is-kept-under-its-address", ARG + "alloc", ok, desc(p))
    for p in cx.run(ARG + "set", [MAP, r"MemoryBlock::get_ptr$"], opaque=opq):
        n += 1
        ins = calls(p, r"HashMapMut::insert$")
        blk = T("param", "memory_block")
        ok = p.end == "ret" and len(ins) == 1 and ins[0].args[2] is blk and ins[0].args[1].op == "call" and ins[0].args[1].a[0].endswith("get_ptr") and ins[0].args[1].a[2] is blk
        cx.ob("kept-block-is-kept-under-its-address", ARG + "set", ok, desc(p))
    for p in cx.run(ARG + "free", [MAP], opaque=opq, branches=anyb):
        n += 1
        ms = calls(p, MAP)
        ok = p.end == "ret" and len(ms) == 1 and ms[0].name.endswith("::remove") and ms[0].args[1] is T("param", "pointer")
        cx.ob("free-gives-up-that-block", ARG + "free", ok, desc(p))
    kinds = set()
    for p in cx.run(ARG + "get_by_ptr", [MAP, r"JsValue::from_block$"], opaque=opq, branches=anyb):
        n += 1
        ms, dec = calls(p, MAP), calls(p, r"from_block$")
        zero = [e for e in brs(p) if e.args[0].op == "bin" and e.args[0].has(ptr) and ev(e.args[0], {ptr: 0}) is not None]
        isz = any(ev(e.args[0], {ptr: 0}) == e.args[1] and ev(e.args[0], {ptr: 8}) != e.args[1] for e in zero) or any(e.args[0] is ptr and e.args[1] == 0 for e in brs(p))
        if not cx.ob("argument-lookup-returns", ARG + "get_by_ptr", p.end == "ret", desc(p)):
            continue
        undef = agg_of(p.ret, "JsValue", "Undefined")
        if isz:
            kinds.add("none")
            cx.ob("no-pointer-is-no-value", ARG + "get_by_ptr", undef and not ms, desc(p))
            continue
        ok = len(ms) == 1 and ms[0].name.endswith("::remove") and ms[0].args[1] is ptr
        if not cx.ob("block-is-taken-out-once", ARG + "get_by_ptr", ok, desc(p)):
            continue
        if dec:
            ok = len(dec) == 1 and carries(dec[0].args[0], ms[0].res)
            cx.ob("the-block-taken-out-is-decoded", ARG + "get_by_ptr", ok, desc(p))
            err = any(e.args[1] == "Err" for e in brs(p) if e.args[0].op == "discr" and e.args[0].a[0] is dec[0].res)
            kinds.add("err" if err else "ok")
            cx.ob("decoded-value-is-handed-on", ARG + "get_by_ptr", undef if err else carries(p.ret, dec[0].res), show(p.ret)[:200])
        else:
            kinds.add("missing")
            cx.ob("missing-block-is-no-value", ARG + "get_by_ptr", undef, desc(p))
    cx.ob("every-outcome-seen", ARG + "get_by_ptr", kinds == {"none", "ok", "err", "missing"}, str(kinds))
    # calls from JavaScript
    E = r"Arguments::|CallbackStore::call$|to_snapshot$|MemoryBlock::get_ptr_and_size$"
    opq2 = lambda q: re.search(E, q)
    seen = set()
    for p in cx.run("vertigo::wasm_callback", [E, r"transaction$"], opaque=opq2, branches=anyb, through=r"Driver::transaction$|Dependencies::transaction$", max_states=200000):
        if p.end != "ret":
            continue
        get, call = calls(p, r"get_by_ptr$"), calls(p, r"CallbackStore::call$")
        if not get and not call:
            continue      # the driver is gone
        n += 1
        ok = len(get) == 1 and get[0].args[1] is T("param", "value_ptr") and len(call) == 1 and call[0].args[2] is get[0].res and call[0].args[1].has(T("param", "callback_id"))
        cx.ob("callback-gets-the-value-at-its-pointer", "wasm_callback", ok, desc(p))
        snap, st, gp = calls(p, r"to_snapshot$"), calls(p, r"Arguments::set$"), calls(p, r"get_ptr_and_size$")
        if snap:
            seen.add("value")
            ok = len(snap) == 1 and len(st) == 1 and st[0].args[1] is snap[0].res and len(gp) >= 1 and gp[0].args[0] is snap[0].res and p.ret is not None
            cx.ob("result-block-is-kept-until-freed", "wasm_callback", ok, desc(p))
            P, S = T("f", gp[0].res, "0"), T("f", gp[0].res, "1")
            ok = packed(p.ret, P, S)
            cx.ob("result-is-pointer-then-size", "wasm_callback", ok, show(p.ret))
        else:
            seen.add("nothing")
            cx.ob("no-result-is-zero", "wasm_callback", ev(p.ret, {}) == 0, show(p.ret))
    cx.ob("every-outcome-seen", "wasm_callback", seen == {"value", "nothing"}, str(seen))
    # calls into JavaScript
    for p in cx.run("vertigo::driver_module::api::api_dom_access::DomAccess::fetch", [E, r"."], opaque=opq2, drops=True):
        n += 1
        tr = p.trace
        snap = [i for i, e in enumerate(tr) if e.kind == "call" and e.name.endswith("to_snapshot")]
        ext = [i for i, e in enumerate(tr) if e.kind in ("call", "dyn") and (e.kind == "dyn" or "fn_dom_access" in show(e.args[0]) if e.args else False)]
        get = [e for e in tr if e.kind == "call" and e.name.endswith("get_by_ptr")]
        dr = [i for i, e in enumerate(tr) if e.kind == "drop" and "MemoryBlock" in (e.name + str(e.args))]
        ok = len(snap) == 1 and len(ext) == 1 and len(get) == 1
        if not cx.ob("one-call-into-javascript", "DomAccess::fetch", ok, desc(p, 30)):
            continue
        call = tr[ext[0]]
        gp = T("call", MB + "get_ptr_and_size", None)
        res = [e.res for e in tr if e.name.endswith("get_ptr_and_size") and e.args[0] is tr[snap[0]].res]
        args = [a for a in call.args if a.op in ("f", "cast", "call")]
        ok = len(res) >= 1 and call.args[-2:] == (T("f", res[0], "0"), T("f", res[0], "1")) if res else False
        cx.ob("passes-the-block-it-wrote", "DomAccess::fetch", ok, desc(p, 30))
        cx.ob("block-outlives-the-call", "DomAccess::fetch", bool(dr) and all(i > ext[0] for i in dr), desc(p, 30))
        cx.ob("reply-is-taken-from-its-pointer", "DomAccess::fetch", get[0].args[1] is call.res and p.ret is get[0].res, desc(p, 30))
    cx.floor("argument paths", n, 11)


def packed(t, P, S):
    """(P << 32) + S, written with +, | or ^"""
    env = {P: 5, S: 7}
    return ev(t, env) == (5 << 32) + 7


# ------------------------------------------------------------------------------------------------ list decoder
LD = JV + "js_value_list_decoder::JsValueListDecoder::"
GETTERS = {"get_buffer": {"Vec": "0"}, "get_u64": {"U64": "0"}, "get_u64_or_null": {"U64": "Some", "Null": "None"}, "get_string": {"String": "0"},
           "get_u32": {"U32": "0"}, "get_json": {"Json": "0"}, "get_bool": {"True": 1, "False": 0}}


@check("W07")
def w07(cx):
    POP = r"VecDeque.*::(\w+)$"
    n = 0
    names = variants(cx, "JsValue")
    known = set(GETTERS) | {"get_any", "get_vec", "new", "expect_no_more"}
    for q in cx.crate().by_path:
        if q.startswith(LD) and "{" not in q:
            cx.ob("getter-is-known", q, q[len(LD):] in known, "a reader of positional arguments this rule has no table entry for")
    for g, table in list(GETTERS.items()) + [("get_any", None), ("get_vec", None)]:
        got = set()
        for p in cx.run(LD + g, [POP, r"Vec::push$", r"."], branches=anyb):
            if not cx.ob("getter-answers", LD + g, p.end == "ret" and p.ret is not None, desc(p)):
                continue
            n += 1
            pops = [e for e in calls(p, r"VecDeque.*::") if not e.name.endswith("::len") and not e.name.endswith("is_empty")]
            if not cx.ob("takes-one-argument-from-the-front", LD + g, len(pops) == 1 and pops[0].name.endswith("pop_front") and ends_field(pops[0].args[0], "data"), desc(p)):
                continue
            x = pops[0].res
            some = [e for e in brs(p) if e.args[0].op in ("discr", "isvar") and e.args[0].a[0] is x]
            if not some or some[-1].args[1] in ("None", 0):
                if g == "get_any" and p.ret is x:
                    continue
                cx.ob("missing-argument-is-an-error", LD + g, agg_of(p.ret, "Result", "Err"), desc(p))
                continue
            v = T("vf", x, "Some", "0")
            if g == "get_any":
                cx.ob("hands-on-the-argument", LD + g, agg_of(p.ret, "Result", "Ok") and p.ret.a[3] is v, show(p.ret)[:200])
                continue
            vs = set(names)
            for e in brs(p):
                if e.args[0].op == "discr" and e.args[0].a[0] is v:
                    vs &= {e.args[1]} if e.name == "=" else vs - set(e.args[1])
            if g == "get_vec":
                if vs != {"List"}:
                    cx.ob("wrong-type-is-an-error", LD + g, agg_of(p.ret, "Result", "Err") and "List" not in vs, desc(p))
                    continue
                got.add("List")
                lst = T("vf", v, "List", "0")
                conv = [e for e in p.trace if e.kind == "dyn" and e.args[0].has(T("param", "convert")) or e.kind == "dyn" and "convert" in e.name]
                failed = [e for e in brs(p) if e.args[1] == "Err"]
                if failed:
                    cx.ob("element-error-is-an-error", LD + g, agg_of(p.ret, "Result", "Err"), desc(p))
                    continue
                ok = agg_of(p.ret, "Result", "Ok")
                if conv:
                    ok = ok and finished(p) and any(carries(t, conv[-1].res) for k, t in contents(p, p.ret.a[3])) and any(a.has(T("item", lst)) for a in conv[-1].args)
                    got.add("element")
                cx.ob("every-element-is-converted-in-order", LD + g, ok and not calls(p, r"::(insert|push_front|rev|skip|take|step_by|filter)$"), desc(p))
                continue
            want = {k: w for k, w in table.items() if k in vs}
            if not want:
                cx.ob("wrong-type-is-an-error", LD + g, agg_of(p.ret, "Result", "Err"), desc(p))
                continue
            ok = len(vs) == 1 and agg_of(p.ret, "Result", "Ok")
            if ok:
                k, w = list(want.items())[0]
                got.add(k)
                r = p.ret.a[3]
                pl = T("vf", v, k, "0")
                if w == "0":
                    ok = r is pl
                elif w == "Some":
                    ok = agg_of(r, "Option", "Some") and r.a[3] is pl
                elif w == "None":
                    ok = agg_of(r, "Option", "None")
                else:
                    ok = ev(r, {}) == w
            cx.ob("right-type-gives-its-value", LD + g, ok, show(p.ret)[:200])
        if table:
            cx.ob("accepts-its-type", LD + g, got == set(table), str(got))
        elif g == "get_vec":
            cx.ob("accepts-its-type", LD + g, got == {"List", "element"}, str(got))
    for p in cx.run(LD + "new", [r"."]):
        f = afields(p.ret)
        cx.ob("keeps-the-arguments-in-order", LD + "new", agg_of(p.ret, "JsValueListDecoder") and nocast(f["data"]) is T("param", "data"), show(p.ret))
    ends = set()
    for p in cx.run(LD + "expect_no_more", [r"is_empty$|::len$"], branches=anyb):
        b = [e for e in brs(p)]
        emp = None
        for e in b:
            t = e.args[0]
            if t.op == "call" and t.a[0].endswith("is_empty") and ends_field(t.a[2], "data"):
                emp = e.args[1] == 1
            elif t.op == "bin" and lenof(t.a[1]) is not None:
                L = [x for x in t.subs() if x.op == "call" and LEN.search(x.a[0])][0]
                emp = ev(t, {L: 0}) == e.args[1]
        ends.add(emp)
        cx.ob("leftover-arguments-are-an-error", LD + "expect_no_more", emp is not None and agg_of(p.ret, "Result", "Ok" if emp else "Err"), desc(p))
    cx.ob("leftover-is-tested", LD + "expect_no_more", ends == {True, False}, str(ends))
    for p in cx.run(VALUE + "JsValue::convert", [r"JsValueListDecoder::new$", r"."], branches=anyb, opaque=lambda q: q.endswith("JsValueListDecoder::new")):
        n += 1
        vs = variant_of(p, "JsValue", names)
        if vs == {"List"}:
            new, dy = calls(p, r"JsValueListDecoder::new$"), [e for e in p.trace if e.kind == "dyn"]
            ok = len(new) == 1 and new[0].args[0] is T("vf", T("param", "self"), "List", "0") and len(dy) == 1 and new[0].res in dy[0].args and p.ret is dy[0].res
            ok = ok and not [e for e in p.trace if e.kind == "call" and e.args and e.args[0] is new[0].args[0] and e is not new[0] and MUTATES.search(e.name)]
            cx.ob("list-is-handed-to-the-decoder", "JsValue::convert", ok, desc(p))
        else:
            cx.ob("only-a-list-is-decoded", "JsValue::convert", agg_of(p.ret, "Result", "Err") and "List" not in vs, desc(p))
    cx.floor("decoder paths", n, 30)


# ------------------------------------------------------------------------------------------------ JSON conversion
SER, DES = JV + "serialize::JsJsonSerialize>::to_json", JV + "serialize::JsJsonDeserialize>::from_json"
INTS = ("u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8", "f64", "usize", "isize", "f32")
ELEM = r"JsJsonSerialize::to_json$|JsJsonDeserialize::from_json$"
DATES = {"to_rfc3339": "parse_from_rfc3339", "format": "parse_from_str", "to_string": "from_str"}


def json_variants(path, names):
    vs = set(names)
    for e in brs(path):
        if e.args[0].op == "discr" and e.args[0].a[0] is T("param", "json") and str(e.args[0].a[1]).endswith("::JsJson"):
            vs &= {e.args[1]} if e.name == "=" else vs - set(e.args[1])
    return vs


def call_chain(t):
    return [x for x in t.subs() if x.op == "call"]


@check("W05")
def w05(cx):
    cr = cx.crate()
    names = variants(cx, "JsJson")
    impls = {}
    for p in cr.by_path:
        m = re.match(r"<(.*) as " + re.escape(JV + "serialize::JsJson") + r"(S|D)e?\w*>::(to|from)_json$", p)
        if m:
            impls.setdefault(m.group(1), {})[m.group(3)] = p
    cx.floor("types with JSON conversion", len(impls), 13)
    n = 0
    J, SELF = T("param", "json"), T("param", "self")
    for ty, fs in sorted(impls.items()):
        if ty == "&str":
            for p in cx.run(fs["to"], [r"."]):
                cx.ob("serialises-to-its-form", ty, agg_of(p.ret, "JsJson", "String") and nocast(p.ret.a[3]) is SELF, show(p.ret)[:200])
            continue
        if not cx.ob("both-directions-exist", ty, set(fs) == {"to", "from"}, str(fs)):
            continue
        out, fmt = {}, None
        for p in cx.run(fs["to"], [ELEM, r"::(insert|push|new|default|is_empty)$", r"to_rfc3339|::format$|to_string$|from_iter"], branches=anyb):
            n += 1
            if not cx.ob("serialising-returns", ty, p.end == "ret" and p.ret is not None, desc(p)):
                continue
            r = p.ret
            form(cx, ty, p, r, out, SELF)
            if ty.startswith("chrono"):
                fmt = r.a[3] if agg_of(r, "JsJson", "String") else None
        accepted = {}
        for p in cx.run(fs["from"], [ELEM, r"::(insert|push|new|is_empty|add)$", r"parse_from|get_hashmap$|from_str"], branches=anyb, opaque=lambda q: q.endswith("typename")):
            n += 1
            if not cx.ob("parsing-answers", ty, p.end == "ret" and p.ret is not None, desc(p)):
                continue
            vs = json_variants(p, names)
            inner = any(e.args[1] == "Err" for e in brs(p))
            if agg_of(p.ret, "Result", "Err"):
                ok = not (vs & set(out)) or inner or ty == "()" and any(e.args[1] == 0 for e in brs(p) if e.args[0].op == "call" and e.args[0].a[0].endswith("is_empty"))
                if ty == "std::option::Option" and "Null" not in vs:
                    ok = inner
                cx.ob("what-was-serialised-is-accepted", ty, ok, f"{sorted(vs)} is refused: {desc(p)}")
                continue
            if not cx.ob("parsing-gives-a-result", ty, agg_of(p.ret, "Result", "Ok") or carries(p.ret, p.ret) and p.ret.op == "call", show(p.ret)[:200]):
                continue
            accepted[frozenset(vs)] = True
            back(cx, ty, p, vs, J, out, fmt)
        if ty != "std::option::Option":
            cx.ob("only-its-form-is-accepted", ty, {v for s in accepted for v in s} == set(out), f"accepts {[sorted(s) for s in accepted]}, serialises to {sorted(out)}")
    cx.floor("conversion paths", n, 50)
    # error context and properties
    for p in cx.run(JSON + "JsJson::get_property", [ELEM, r"HashMap::\w+$", r"JsJsonContext::add$"], branches=anyb, opaque=lambda q: q.endswith("typename")):
        rm, fr = calls(p, r"HashMap::(remove|get|remove_entry)$"), calls(p, r"from_json$")
        if fr:
            ok = len(rm) == 1 and rm[0].args[0] is T("vf", SELF, "Object", "0") and rm[0].args[1] is T("param", "param") and len(fr) == 1 and carries(fr[0].args[1], rm[0].res)
            ok = ok and carries(p.ret, fr[0].res) and fr[0].args[0].has(T("param", "param")) and any(x.has(T("param", "context")) for x in [fr[0].args[0]])
            cx.ob("property-is-read-by-its-name", "get_property", ok, desc(p))
        else:
            cx.ob("missing-property-is-an-error", "get_property", agg_of(p.ret, "Result", "Err") and p.ret.has(T("param", "context")), desc(p))
        for e in rm:
            cx.ob("property-is-read-by-its-name", "get_property", e.args[1] is T("param", "param"), desc(p))
    for p in cx.run(JSON + "JsJson::get_hashmap", [r"."], branches=anyb, opaque=lambda q: q.endswith("typename")):
        vs = {e.args[1] if e.name == "=" else None for e in brs(p) if e.args[0].op == "discr" and e.args[0].a[0] is SELF}
        ok = agg_of(p.ret, "Result", "Ok") and p.ret.a[3] is T("vf", SELF, "Object", "0") if vs == {"Object"} else agg_of(p.ret, "Result", "Err")
        cx.ob("object-gives-its-map", "get_hashmap", ok, show(p.ret)[:200])
    for p in cx.run(JV + "serialize::from_json", [ELEM], branches=anyb):
        fr = calls(p, r"from_json$")
        ok = len(fr) == 1 and fr[0].args[1] is J and (agg_of(p.ret, "Result", "Ok") and carries(p.ret.a[3], fr[0].res) or agg_of(p.ret, "Result", "Err") and any(e.args[1] == "Err" for e in brs(p)))
        cx.ob("entry-point-converts-the-whole", "from_json", ok, desc(p))
    for p in cx.run(JV + "serialize::to_json", [ELEM]):
        ts = calls(p, r"to_json$")
        cx.ob("entry-point-converts-the-whole", "to_json", len(ts) == 1 and ts[0].args[0] is T("param", "value") and p.ret is ts[0].res, desc(p))
    for p in cx.run(JSON + "JsJsonObjectBuilder::insert", [ELEM, r"HashMap.*::insert$", r"to_string$"]):
        ins, tj = calls(p, r"HashMap.*::insert$"), calls(p, r"to_json$")
        ok = len(ins) == 1 and len(tj) == 1 and tj[0].args[0] is T("param", "value") and ins[0].args[1].has(T("param", "name")) and ins[0].args[2] is tj[0].res
        cx.ob("builder-keeps-what-is-inserted", "JsJsonObjectBuilder::insert", ok, desc(p))


def form(cx, ty, p, r, out, SELF):
    """r is the form values of this type are serialised to"""
    if ty in INTS:
        ok = agg_of(r, "JsJson", "Number") and nocast(r.a[3]) is SELF and r.a[3].op in ("cast", "param") and (r.a[3].op == "param" or r.a[3].a[1:] == (ty, "f64"))
    elif ty == "std::string::String":
        ok = agg_of(r, "JsJson", "String") and r.a[3] is SELF
    elif ty == "bool":
        v = [e.args[1] for e in brs(p) if e.args[0] is SELF]
        ok = r.op == "agg" and v and {0: "False", 1: "True"}[v[-1] if isinstance(v[-1], int) else 1] == r.a[1]
    elif ty == "()":
        ok = agg_of(r, "JsJson", "Object") and not contents(p, r.a[3])
    elif ty == "std::vec::Vec":
        ok = agg_of(r, "JsJson", "List") and elements(p, r.a[3], SELF, None)
    elif ty.startswith("std::collections::"):
        ok = agg_of(r, "JsJson", "Object") and entries(p, r.a[3], SELF)
    elif ty == "std::option::Option":
        v = [e.args[1] for e in brs(p) if e.args[0].op == "discr" and e.args[0].a[0] is SELF]
        ok = agg_of(r, "JsJson", "Null") if v == ["None"] else r.op == "call" and r.a[0].endswith("to_json") and r.a[2] is T("vf", SELF, "Some", "0")
        out["Null" if v == ["None"] else "inner"] = True
        cx.ob("serialises-to-its-form", ty, ok, show(r)[:200])
        return
    elif ty.startswith("chrono::"):
        ok = agg_of(r, "JsJson", "String") and r.a[3].has(SELF) and any(x.a[0].rsplit("::", 1)[-1] in DATES for x in call_chain(r.a[3]))
    else:
        ok = False
    out[r.a[1] if r.op == "agg" else "?"] = True
    cx.ob("serialises-to-its-form", ty, ok, show(r)[:300])


def elements(p, cont, dom, bind):
    """every element of dom, in order, converted, makes up cont"""
    if any(e.args[0].op == "discr" and e.args[0].a[0].op == "next" and e.args[1] == "Some" for e in brs(p)) or cont.op == "mapped":
        c = contents(p, cont)
        if cont.op == "mapped" and cont.a[1].op == "item" and cont.a[1].a[0].op == "empty":
            return cont.a[0] is dom      # nothing in it
        return len(c) == 1 and (cont.op == "mapped" or finished(p)) and converted(c[0][1], dom, bind) and not re.search("push_front|insert", " ".join(e.name for e in p.trace if e.kind == "call" and e.args and e.args[0] is cont))
    return not contents(p, cont)


def converted(t, dom, bind):
    while t.op == "vf" and t.a[1] in ("Ok", "Some"):
        t = t.a[0]
    if not (t.op == "call" and re.search(ELEM, t.a[0])):
        return False
    x = t.a[2] if t.a[0].endswith("to_json") else t.a[3]
    it = T("item", dom)
    return x is it or x in (T("f", T("item", T("enum", dom)), "1"), T("f", it, "1")) or x.op == "f" and x.a[1] == "1" and x.has(it)


def entries(p, cont, dom):
    c = [e for e in p.trace if e.kind == "call" and e.args and e.args[0] is cont and e.name.endswith("insert")]
    if cont.op == "mapped":
        x = cont.a[1]
        return x.op == "agg" and x.a[3] is T("f", T("item", dom), "0") and converted(x.a[4], dom, None) or x.op == "item"
    if any(e.args[0].op == "discr" and e.args[0].a[0].op == "next" and e.args[1] == "Some" for e in brs(p)):
        return len(c) == 1 and finished(p) and c[0].args[1] is T("f", T("item", dom), "0") and converted(c[0].args[2], dom, None)
    return not c


def back(cx, ty, p, vs, J, out, fmt):
    r = p.ret.a[3] if agg_of(p.ret, "Result", "Ok") else p.ret
    one = list(vs)[0] if len(vs) == 1 else None
    pl = T("vf", J, one, "0") if one else None
    rule = "parses-back-to-the-value"
    if ty in INTS:
        ok = one == "Number" and nocast(r) is pl and (r.op == "cast" and r.a[1:] == ("f64", ty) or ty == "f64")
    elif ty == "std::string::String":
        ok = one == "String" and r is pl
    elif ty == "bool":
        ok = ev(r, {}) == {"True": 1, "False": 0}.get(one)
    elif ty == "()":
        ok = one == "Object" and any(e.args[1] == 1 for e in brs(p) if e.args[0].op == "call" and e.args[0].a[0].endswith("is_empty"))
    elif ty == "std::vec::Vec":
        ok = one == "List" and elements(p, r, pl, None)
        ctx(cx, ty, p, lambda t: any(x.op in ("enum", "enumidx", "index") or x.op == "f" and x.a[1] == "0" for x in t.subs()))
    elif ty.startswith("std::collections::"):
        ok = one == "Object" and entries(p, r, pl)
        ctx(cx, ty, p, lambda t: t.has(T("f", T("item", pl), "0")))
    elif ty == "std::option::Option":
        if one == "Null":
            ok = agg_of(r, "Option", "None")
        else:
            ok = "Null" not in vs and agg_of(r, "Option", "Some") and (lambda t: t.op == "call" and t.a[0].endswith("from_json") and t.a[3] is J)(r.a[3].a[0] if r.a[3].op == "vf" else r.a[3])
    elif ty.startswith("chrono::"):
        w = [x for x in call_chain(fmt) if x.a[0].rsplit("::", 1)[-1] in DATES] if fmt is not None else []
        g = [x for x in call_chain(r) if x.a[0].rsplit("::", 1)[-1] in DATES.values()]
        ok = len(w) == 1 and len(g) == 1 and DATES[w[0].a[0].rsplit("::", 1)[-1]] == g[0].a[0].rsplit("::", 1)[-1] and w[0].a[3:] == g[0].a[3:] and g[0].a[2].has(pl)
        extra = [x.a[0] for x in call_chain(r) if x is not g[0] and not re.search(r"to_utc$|with_timezone$|from_json$|ok_or|map_err", x.a[0])] if g else []
        ok = ok and not extra
        if w and "format" in w[0].a[0].rsplit("::", 1)[-1]:
            txt = format_text(cx, w[0].a[3]) if len(w[0].a) > 3 else None
            cx.ob("format-keeps-the-whole-date", ty, txt is not None and ("%F" in txt or "%Y" in txt and ("%m" in txt and "%d" in txt or "%j" in txt) or "%D" not in txt and "%+" in txt), str(txt))
    else:
        ok = False
    cx.ob(rule, ty, ok, f"{show(r)[:200]} from {sorted(vs)}: {desc(p)}")


def format_text(cx, t):
    """text of a format argument: a literal, a constant or an immutable static"""
    t = nocast(t)
    if t.op == "c" and isinstance(t.a[0], str):
        return t.a[0]
    for x in t.subs():
        if x.op in ("static", "cpath") and x.a[0] in cx.crate().consts:
            k = cx.crate().consts[x.a[0]]
            if k.get("mut") or not k.get("freeze", True):
                return None
            strs = [y["str"] for b in k.get("blocks", []) for y in strs_in(b)]
            return strs[0] if len(strs) == 1 else None
        if x.op == "c" and isinstance(x.a[0], str):
            return x.a[0]
    return None


def strs_in(x):
    if isinstance(x, dict):
        if "str" in x:
            yield x
        for y in x.values():
            yield from strs_in(y)
    elif isinstance(x, list):
        for y in x:
            yield from strs_in(y)


def ctx(cx, ty, p, where):
    for e in calls(p, r"JsJsonDeserialize::from_json$"):
        t = e.args[0]
        cx.ob("error-says-which-element", ty, t.has(T("param", "context")) or "context" in show(t), show(t)[:200])
        cx.ob("error-says-which-element", ty, where(t), show(t)[:300])


@check("W06")
def w06(cx):
    names = variants(cx, "JsJson")
    J = "<" + JSON + "JsJson as "
    S, O = T("param", "self"), T("param", "other")
    same, seen = {}, 0
    for p in cx.run(J + "std::cmp::PartialEq>::eq", [r"."], branches=anyb):
        seen += 1
        vs = {S: set(names), O: set(names)}
        for e in brs(p):
            t = e.args[0]
            if t.op == "discr" and t.a[0] in vs:
                vs[t.a[0]] &= {e.args[1]} if e.name == "=" else vs[t.a[0]] - set(e.args[1])
        a, b = vs[S], vs[O]
        if not (a & b):
            cx.ob("different-variants-differ", f"eq {sorted(a)}", ev(p.ret, {}) == 0, show(p.ret)[:200])
            continue
        if not cx.ob("equality-is-decided-per-variant", f"eq {sorted(a & b)}", len(a) == 1 and len(b) == 1, desc(p)):
            continue
        v = list(a)[0]
        x, y = T("vf", S, v, "0"), T("vf", O, v, "0")
        if v in ("True", "False", "Null"):
            same[v] = ev(p.ret, {}) == 1
        elif p.ret.op == "bin" and p.ret.a[0] == "Eq":
            l, r = p.ret.a[1], p.ret.a[2]
            if v == "Number":
                bits = [t.op == "call" and t.a[0].endswith("to_bits") for t in (l, r)]
                same[v] = all(bits) and {l.a[2], r.a[2]} == {x, y}
            else:
                same[v] = {l, r} == {x, y}
        else:
            same[v] = False
        cx.ob("equal-means-equal-content", f"eq {v}", same[v], show(p.ret)[:200])
    for v in names:
        cx.ob("variant-has-equality", v, v in same, "")
    tags, hashed = {}, set()
    H = r"Hasher::write\w*$|Hash>::hash$|Hash::hash$|::sort\w*$"
    for p in cx.run(J + "std::hash::Hash>::hash", [H, r"::collect$|from_iter$|BTreeMap"], branches=anyb):
        seen += 1
        vs = variant_of(p, "JsJson", names)
        evs = calls(p, r"Hasher::write\w*$|Hash>::hash$|Hash::hash$")
        if not cx.ob("hash-is-per-variant", f"hash {sorted(vs)}", p.end == "ret" and len(vs) == 1, desc(p)):
            continue
        v = list(vs)[0]
        tag = evs[0].args[1] if evs else None
        if tag is not None and tag.op == "c":
            cx.ob("variants-hash-apart", v, tags.setdefault(tag.a[0], v) == v, f"{tags.get(tag.a[0])} has the same tag")
        x = T("vf", S, v, "0")
        it = T("item", x)
        doms = {e.args[0].a[0].a[0] for e in brs(p) if e.args[0].op == "discr" and e.args[0].a[0].op == "next"}
        for e in evs[1:]:
            val = e.args[0] if not e.name.rsplit("::", 1)[-1].startswith("write") else e.args[1]
            ok = val.has(x) and not any(t.op == "call" and not re.search(r"to_bits$|::len$|to_be_bytes|to_le_bytes|to_ne_bytes", t.a[0]) and x not in t.subs() for t in val.subs())
            cx.ob("hash-feeds-only-content", f"hash {v}", ok, show(val)[:200])
        if doms:
            cx.ob("whole-content-is-hashed", f"hash {v}", finished(p), desc(p))
        if v == "Object" and len(evs) > 1:
            first = p.trace.index(evs[1])
            srt = [e for e in p.trace[:first] if e.kind == "call" and re.search(r"::sort\w*$", e.name)]
            ordered = [e for e in srt if sorted_by_key(cx, e)] or [e for e in p.trace[:first] if e.kind == "call" and "BTreeMap" in e.name]
            ordered = ordered or any("BTreeMap" in t.a[0] for d in doms for t in d.subs() if t.op == "call")
            cx.ob("equal-objects-hash-in-the-same-order", f"hash {v}", bool(ordered), "entries are hashed in the iteration order of the hash map: " + desc(p))
        hashed.add(v)
    for v in names:
        cx.ob("variant-has-hash", v, v in hashed, "")
    cx.floor("equality and hash paths", seen, 20)


def sorted_by_key(cx, e):
    """the sort orders entries by their whole key"""
    l = e.name.rsplit("::", 1)[-1]
    if l in ("sort", "sort_unstable"):
        return True
    clo = [a for a in e.args if a.op == "clo"]
    if len(clo) != 1 or clo[0].a[1] is None:
        return False
    inst = cx.crate().insts[clo[0].a[1]]
    for q in cx.run(inst, [r"."]):
        r = q.ret
        keyed = lambda t: t.op == "f" and t.a[1] == "0" and t.a[0].op in ("param", "f", "vf")
        if "by_key" in l or "by_cached_key" in l:
            if not keyed(nocast(r)):
                return False
        elif not (r.op == "call" and re.search(r"cmp$", r.a[0]) and keyed(nocast(r.a[2])) and keyed(nocast(r.a[3])) and r.a[2] is not r.a[3]):
            return False
    return True


# ------------------------------------------------------------------------------------------------ plain values
HOLDS = {"U32": (0, 32), "I32": (1, 32), "U64": (0, 64), "I64": (1, 64)}


def int_kind(ty):
    m = re.fullmatch(r"([iu])(8|16|32|64|size)", ty)
    return (int(m.group(1) == "i"), 64 if m.group(2) == "size" else int(m.group(2))) if m else None


def fits(frm, to):
    """every value of the integer kind is a value of the other"""
    return frm == to or to[1] > frm[1] and (to[0] or not frm[0])


def widened(t, x):
    """t is x, at most widened on the way"""
    while t.op in ("cast", "str"):
        if t.op == "cast":
            a, b = int_kind(t.a[1]), int_kind(t.a[2])
            if t.a[1] != t.a[2] and not (a and b and fits(a, b)):
                return False
        t = t.a[0]
    return t is x


def same_entries(p, cont, src):
    """cont has the entries of src, names and values as they are"""
    if cont is src:
        return True
    if cont.op == "mapped":
        e = cont.a[1]
        if e.op == "item":
            return cont.a[0] is src
        return cont.a[0] is src and e.op == "agg" and len(e.a[3:]) == 2 and all(nocast(v) is T("f", T("item", src), k) for k, v in zip(("0", "1"), e.a[3:]))
    ins = [e for e in p.trace if e.kind == "call" and e.args and e.args[0] is cont and MUTATES.search(e.name)]
    some = [e for e in brs(p) if e.args[0].op == "discr" and e.args[0].a[0].op == "next"]
    if any(e.args[1] == "Some" for e in some):
        return len(ins) == 1 and ins[0].name.endswith("::insert") and finished(p) and all(e.args[0].a[0].a[0] is src for e in some) \
            and all(nocast(v) is T("f", T("item", src), k) for k, v in zip(("0", "1"), ins[0].args[1:]))
    return bool(some) and not ins


@check("W08")
def w08(cx):
    cr = cx.crate()
    P = "<" + VALUE + "JsValue as "
    n = 0
    kinds = Counter()
    EV = [r"::(insert|push\w*|retain|remove|clear|extend|truncate|new|from_iter)$"]
    for inst in cr.by_path.get(P + "std::convert::From>::from", []):
        inst = inst if isinstance(inst, dict) else cr.insts[inst]
        ty = cr.types[inst["locals"][1][0]]["s"]
        src = T("param", inst["locals"][1][1])
        ik = int_kind(ty)
        seen = set()
        for p in cx.run(inst, EV, branches=anyb):
            n += 1
            r, w = p.ret, "JsValue from " + ty
            if not cx.ob("conversion-returns", w, p.end == "ret" and r is not None and agg_of(r, "JsValue"), desc(p)):
                continue
            v, pl = r.a[1], r.a[3:]
            if ik:
                kinds["int"] += 1
                cx.ob("number-keeps-its-value", w, v in HOLDS and fits(ik, HOLDS[v]) and widened(pl[0], src), show(r))
            elif ty == "f64":
                kinds["float"] += 1
                cx.ob("number-keeps-its-value", w, v == "F64" and pl[0] is src, show(r))
            elif ty == "bool":
                kinds["bool"] += 1
                truth(cx, w, p, src, seen)
            elif ty in ("&str", "std::string::String"):
                kinds["text"] += 1
                cx.ob("text-is-kept", w, v == "String" and nocast(pl[0]) is src, show(r))
            elif "JsValue" in ty:
                kinds["map"] += 1
                cx.ob("entries-are-kept", w, v == "Object" and same_entries(p, pl[0], src), show(r))
            else:
                cx.ob("conversion-is-known", w, False, "no rule for this type")
        if ty == "bool":
            cx.ob("both-truths-converted", "JsValue from bool", seen == {0, 1}, str(seen))
    cx.ob("conversions-found", "JsValue", all(kinds[k] for k in ("int", "float", "bool", "text", "map")), str(kinds))
    for inst in cr.by_path.get(P + "std::iter::FromIterator>::from_iter", []):
        inst = inst if isinstance(inst, dict) else cr.insts[inst]
        src = T("param", inst["locals"][1][1])
        for p in cx.run(inst, EV, branches=anyb):
            n += 1
            cx.ob("entries-are-kept", "JsValue::from_iter", p.end == "ret" and agg_of(p.ret, "JsValue", "Object") and same_entries(p, p.ret.a[3], src), show(p.ret))
    src = T("param", "value")
    for p in cx.run(VALUE + "JsValue::str", EV, branches=anyb):
        n += 1
        cx.ob("text-is-kept", "JsValue::str", p.end == "ret" and agg_of(p.ret, "JsValue", "String") and nocast(p.ret.a[3]) is src, show(p.ret))
    seen = set()
    for p in cx.run(VALUE + "JsValue::bool", EV, branches=anyb):
        n += 1
        truth(cx, "JsValue::bool", p, src, seen)
    cx.ob("both-truths-converted", "JsValue::bool", seen == {0, 1}, str(seen))
    seen = set()
    for p in cx.run(VALUE + "JsValue::string_option", EV + ["is_empty$"], branches=anyb):
        n += 1
        v = [e.args[1] for e in brs(p) if e.args[0].op in ("discr", "isvar") and e.args[0].a[0] is src]
        some = v[-1:] in (["Some"], [1]) if v else None
        seen.add(some)
        ok = agg_of(p.ret, "JsValue", "String") and nocast(p.ret.a[3]) is T("vf", src, "Some", "0") if some else agg_of(p.ret, "JsValue", "Null")
        cx.ob("missing-text-is-null", "JsValue::string_option", p.end == "ret" and some is not None and ok, desc(p))
    cx.ob("both-cases-seen", "JsValue::string_option", seen == {True, False}, str(seen))
    for p in cx.run(P + "std::default::Default>::default", EV):
        cx.ob("default-is-an-empty-list", "JsValue::default", agg_of(p.ret, "JsValue", "List") and p.ret.a[3].op in ("call", "default", "agg") and not contents(p, p.ret.a[3]), show(p.ret))
    cx.floor("conversion paths", n, 24)


def truth(cx, w, p, src, seen):
    b = [e.args[1] for e in brs(p) if e.args[0] is src]
    ok = p.end == "ret" and len(b) == 1 and b[0] in (0, 1) and agg_of(p.ret, "JsValue", "True" if b[0] else "False")
    seen |= set(b)
    cx.ob("truth-is-kept", w, ok, desc(p))
