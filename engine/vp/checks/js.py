"""T: the script that runs in the page (the committed bundle and the TypeScript it is made of)"""
import collections, os, re
from ..core import check
from ..build import REPO
from ..js import *

BUNDLE = "crates/vertigo/src/driver_module/wasm_run.js"
ENTRY = "crates/vertigo/src/driver_module/src_js/index.ts"
PTR, SIZE, MEM = S("p", "ptr"), S("p", "size"), S("p", "mem")
BYTES, STR, NUM, BIG = frozenset(["bytes"]), frozenset(["string"]), frozenset(["number"]), frozenset(["bigint"])


class Stop(Exception):
    pass


def boot(js):
    js.run_program()
    for e in [e for e in js.events if e.kind == "call" and e.name == "addEventListener" and e.args and e.args[0] == "load"][:1]:
        js.call(e.args[1], [])


def norm(t):
    """what a nested function was said to answer and how far a nested function was said to write are compared as one"""
    if isinstance(t, S):
        return S("W" if t.op == "R" else t.op, *[norm(x) for x in t.a])
    if isinstance(t, tuple):
        return tuple(norm(x) for x in t)
    return t


def settled(js, t):
    """decisions about the machine, not about the script"""
    if t.op == "instanceof" and "memory" in {x for y in t.subs() for x in y.a if isinstance(x, str)}:
        return True
    if t.op == "===":
        a, b = t.a
        if a.op == "get" and b.op == "get" and a.a[1] == b.a[1] == "buffer" and len(a.a) == len(b.a) == 3:
            return False
        if any(x.op == "new" and x.a[0] == "Uint8Array" for y in t.a for x in y.subs()) and any("buffer" in x.a for y in t.a for x in y.subs()):
            return False
        if {"R", "W"} & {x.op for x in t.subs()}:
            d = add(norm(a), norm(b), -1)
            if isnum(d):
                return d == 0
    return None


class Page:
    def __init__(self, name, prog):
        self.name, self.prog = name, prog
        self.boots = explore(prog, boot)
        started = [p for p in self.boots if p.end == "ret" and any(self.entry(p, e) for e in p.events)]
        self.pre = started[0].made if started else None
        self.memo = {}

    @staticmethod
    def entry(p, e):
        return e.kind == "call" and e.name == "vertigo_entry_function"

    def run(self, f, answers=None, faults=None, values=None, defkind=None, kinds=None, decide=None, override=None, limit=3000):
        def go(js):
            boot(js)
            js.mark, js.bm = len(js.events), len(js.branches)
            js.answers, js.defkind, js.faults = {"alloc": MEM, **(answers or {})}, defkind, faults
            js.kinds.update({PTR: NUM, SIZE: NUM, MEM: NUM, **{S("get", DOCUMENT, k): frozenset(["object"]) for k in ("documentElement", "head", "body")}})
            js.decide = (lambda j, t: next((v for v in (settled(j, t), decide(j, t) if decide else None) if v is not None), None))
            js.values.update(values or {})
            js.kinds.update(kinds or {})
            js.override.update(override or {})
            imp = [e for e in js.events if e.kind == "call" and str(e.name).startswith("instantiate")][-1].args[1]
            api = [e for e in js.events if e.kind == "set" and e.name == "$vertigoApi"][-1].args[0]
            return f(js, imp.props["mod"].props, api)
        out = explore(self.prog, go, pre=self.pre, limit=limit)
        for p in out:
            p.new = p.events[p.js.mark:]
            p.cond = p.branches[p.js.bm:]
        return out

    # ------------------------------------------------------------------------------------------- what the script is made of
    @property
    def decoder(self):
        """the function entered again for what a list holds, while dom_access decodes"""
        if "dec" not in self.memo:
            ps = self.run(lambda js, m, api: js.call(m["dom_access"], [PTR, SIZE]), values={rd("Uint8", 0): 12})
            fs = {id(p.js.captured[0][0].node): p.js.captured[0][0].node for p in ps if p.js.captured}
            self.memo["dec"] = next(iter(fs)) if len(fs) == 1 else None
        return self.memo["dec"]

    def callback(self, js, api):
        """the function that hands a value to a callback of the module, as the timers use it: wasm_callback(id, value)"""
        iv = api.props.get("interval")
        n = len(js.events)
        js.call(js.getprop(iv, "timeout_set"), [1000, Big(5)], iv)
        t = [e for e in js.events[n:] if e.kind == "call" and e.name == "setTimeout"]
        js.call(t[-1].args[0], [])
        e = [e for e in js.events[n:] if e.kind == "call" and e.name == "wasm_callback"][-1]
        fr = [f for f, a in e.stack if len(a) == 2 and a[0] == Big(5)]
        del js.events[n:]
        return fr[-1]

    def decoding(self, js, mod, then):
        """run then(value, cursor) with what the item decoder makes of the memory dom_access is given"""
        def first(j, f, args):
            del j.override[self.decoder]
            then(j, j.call(f, args), args)
            raise Stop()
        js.override[self.decoder] = first
        try:
            js.call(mod["dom_access"], [PTR, SIZE])
        except Stop:
            return True
        return False


def rd(kind, at):
    return S("rd", kind, term(add(PTR, at)))


def pages(cx):
    progs = load(REPO, BUNDLE, ENTRY)
    cx.file(BUNDLE)
    cx.file(ENTRY)
    out = []
    for k in ("bundle", "sources"):
        p = Page(k, progs[k])
        cx.need(p.pre is not None, f"{k}: a start of the page that runs the module")
        p.cx = cx
        out.append(p)
    return out


def unterm(t):
    """host-level view of a term or value: numerals, texts and constants as themselves"""
    if isinstance(t, S):
        if t.op == "num":
            return plain(t)
        if t.op in ("s",):
            return t.a[0]
        if t.op == "bool":
            return t.a[0] == "true"
        if t.op == "null":
            return None
        if t.op == "undef":
            return UNDEF
        if t.op == "big":
            return Big(int(t.a[0]))
    return t


def fresh(buf, epoch):
    return isinstance(buf, S) and buf.op == "get" and buf.a[1] == "buffer" and buf.a[0].a[1] == "memory" and buf.a[2] == epoch


class Writes:
    """what a path puts into the memory it got from alloc"""
    def __init__(self, events):
        self.at, self.alloc, self.stale, self.cb, self.again = [], [], [], [], []
        for e in events:
            if e.kind == "again":
                self.again.append((len(e.loops), term(e.args[0])))
            if e.kind != "call":
                continue
            r = e.recv
            if e.name == "alloc":
                self.alloc.append(e.args[0])
            elif e.name == "wasm_callback":
                self.cb.append(e.args)
            elif isinstance(r, S) and r.op == "new" and r.a[0] == "DataView" and e.name.startswith("set"):
                self.look(r.a[2], e)
                kind = e.name[3:] + ("LE" if len(e.args) > 2 and e.args[2] is not False and e.args[2] is not UNDEF else "")
                self.at.append((len(e.loops), kind, add(viewed(r, e.args[0]), MEM, -1), unterm(term(e.args[1]))))
            elif isinstance(r, S) and e.name == "set" and r.op == "m" and r.a[1] == "subarray" and r.a[0].op == "bytes":
                self.look(r.a[0].a[0], e)
                src = term(e.args[0])
                start, end = plain(r.a[2]), plain(r.a[3]) if len(r.a) > 3 else None
                room = add(end, start, -1) if end is not None else None
                self.at.append((len(e.loops), "bytes" if room is None or room is S("len", src) else "cut", add(start, MEM, -1), src))
            elif isinstance(r, S) and e.name == "set" and r.op == "bytes":
                self.look(r.a[0], e)
                self.at.append((len(e.loops), "bytes", add(e.args[1], MEM, -1), term(e.args[0])))

    def look(self, buf, e):
        if not fresh(buf, e.epoch):
            self.stale.append(e)

    def show(self):
        return f"alloc {[show(x) if isinstance(x, S) else x for x in self.alloc]} writes " + "; ".join(f"{'*' * d}{k}@{show(o) if isinstance(o, S) else o}={show(v) if isinstance(v, S) else v!r}" for d, k, o, v in self.at)[:700]


def starts(t):
    """a place that moves through a loop, with where it starts: (turns over, start)"""
    return (t.a[0], plain(t.a[4])) if isinstance(t, S) and t.op == "at" else None


def utf8(x):
    return S("utf8", term(x))


def region(at, n):
    return lambda t: isinstance(t, S) and t.op == "m" and t.a[1] == "subarray" and t.a[0].op == "bytes" and plain(t.a[2]) is add(PTR, at) and plain(t.a[3]) is add(add(PTR, at), n)


TAGS = {"U32": 1, "I32": 2, "U64": 3, "I64": 4, "F64": 5, "True": 6, "False": 7, "Null": 8, "Undefined": 9, "Vec": 10, "String": 11, "List": 12, "Object": 13, "Json": 14}
JTAGS = {"True": 1, "False": 2, "Null": 3, "String": 4, "Number": 5, "List": 6, "Object": 7}
SCALARS = {"U32": ("Uint32", 4), "I32": ("Int32", 4), "U64": ("BigUint64", 8), "I64": ("BigInt64", 8), "F64": ("Float64", 8)}


def roundtrip(pg, values):
    """decode what dom_access is given, and hand the value to a callback"""
    def f(js, mod, api):
        cb = pg.callback(js, api)
        js.out = None

        def then(j, v, args):
            cur = [(x, c) for x in args if isinstance(x, Obj) for c in x.props.values() if isnum(c) or isinstance(c, S) and not (c.op == "p")]
            j.out = (v, [c for _, c in cur], len(j.events))
            j.call(cb, [Big(9), v])
        js.done = pg.decoding(js, mod, then)
        return js.out
    return pg.run(f, answers={"wasm_callback": Big(0)}, values={rd("Uint8", o): v for o, v in values.items()})


def ended(p):
    return p.end == "ret" and p.js.done and p.ret is not None


@check("T01", ())
def t01(cx):
    n = 0
    for pg in pages(cx):
        cx.need(pg.decoder is not None, f"{pg.name}: the function that decodes a value")
        for kind, tag in TAGS.items():
            subs = [(None, None)] if kind != "Json" else list(JTAGS.items())
            for jk, jt in subs:
                vals = {0: tag} if jt is None else {0: tag, 1: jt}
                name = kind if jk is None else "Json " + jk
                ps = roundtrip(pg, vals)
                cx.cov["paths"] += len(ps)
                where = f"{pg.name}: {name}"
                ok = [p for p in ps if ended(p)]
                cx.ob("a value of this kind is read and written", where, len(ok) == len(ps) == 1, f"{len(ps)} ways, {len(ok)} to the end: " + (next(p for p in ps if p not in ok).desc(4) if len(ok) < len(ps) else ""))
                for p in ok:
                    n += 1
                    value_table(cx, where, kind, tag, jk, jt, p)
        for tag in (0, 15, 16, 100, 255):
            ps = pg.run(lambda js, mod, api: js.call(mod["dom_access"], [PTR, SIZE]), values={rd("Uint8", 0): tag})
            cx.ob("an unknown kind is refused without harm", f"{pg.name}: tag {tag}", ps and all(p.end == "ret" for p in ps) and not any(e.kind == "set" for p in ps for e in p.new), ps[0].desc(4) if ps else "no path")
            ps = pg.run(lambda js, mod, api: js.call(mod["dom_access"], [PTR, SIZE]), values={rd("Uint8", 0): 14, rd("Uint8", 1): tag})
            cx.ob("an unknown kind is refused without harm", f"{pg.name}: json tag {tag}", ps and all(p.end == "ret" for p in ps), ps[0].desc(4) if ps else "no path")
        nested(cx, pg)
    cx.floor("kinds followed from memory to memory", n, 40)


def value_table(cx, where, kind, tag, jk, jt, p):
    v, cur, mark = p.ret
    w = Writes(p.events[mark:])
    reads = [e for e in p.new if e.kind == "call" and isinstance(e.recv, S) and e.recv.op == "new" and e.recv.a[0] == "DataView" and e.name.startswith("get")]
    le = [e for e in reads if len(e.args) > 1 and e.args[1] is not False and e.args[1] is not UNDEF]
    old = [e for e in reads if not fresh(e.recv.a[2], e.epoch)]
    cx.ob("numbers are big-endian and read from the memory as it is", where, not le and not old and not w.stale, "; ".join(repr(e) for e in (le + old + w.stale)[:2]))
    h = 1 if jk is None else 2
    k = kind if jk is None else jk
    head = [(0, "Uint8", 0, tag)] + ([(0, "Uint8", 1, jt)] if jk else [])
    want, size, end = None, None, None
    if kind in SCALARS or jk == "Number":
        m, wd = SCALARS[kind] if jk is None else ("Float64", 8)
        want, size, end = head + [(0, m, h, rd(m, h))], h + wd, h + wd
    elif k in ("True", "False", "Null"):
        want, size, end = head, h, h
    elif k == "Undefined":
        cx.ob("nothing is written for undefined itself", where, not w.at and not w.alloc and w.cb and w.cb[-1][1] == 0, w.show())
        return
    elif k in ("Vec", "String"):
        cnt = rd("Uint32", h)
        body = [x for x in w.at if x[1] in ("bytes", "cut")]
        src = body[0][3] if len(body) == 1 else None
        raw = src
        if k == "String":
            raw = src.a[0].a[0] if isinstance(src, S) and src.op == "utf8" and src.a[0].op == "text" else None
        cx.ob("the bytes are those that follow the length", where, raw is not None and region(h + 4, cnt)(raw), w.show())
        want, size, end = head + [(0, "Uint32", h, S("len", src) if src is not None else None), (0, "bytes", h + 4, src)], add(h + 4, S("len", src)) if src is not None else None, add(h + 4, cnt)
    elif k in ("List", "Object"):
        obj = k == "Object"
        m, cw = ("Uint16", 2) if obj else ("Uint32", 4)
        cnt = rd(m, h)
        rng = S("range", cnt)
        got = [t for d, t in w.again if d == 1]
        el = got[-1] if got and all(t is got[0] for t in got) else None
        ok = el is not None and el.op == "R"
        at = None
        if ok:
            pos = plain(el.a[0])
            at = next((x for x in (pos.subs() if isinstance(pos, S) else []) if x.op == "at" and x.a[0] is rng), None)
            ok = at is not None and starts(at) == (rng, h + cw)
        cx.ob("what it holds follows the count, one after another", where, ok and len(w.again) >= 1, w.show() + " elements " + "; ".join(show(t) for t in got))
        if not ok:
            return
        if not obj:
            cx.ob("what it holds follows the count, one after another", where + ", first part", pos is at, show(el))
            want, size = head + [(0, "Uint32", h, cnt)], add(h + 4, S("sum", rng, S("R", el)))
            last = S("looped", rng, add(at, S("W", at)))
            end = last
        else:
            klen = S("rd", "Uint32", add(PTR, at))
            body = [x for x in w.at if x[1] in ("bytes", "cut")]
            key = body[0][3] if len(body) == 1 else None
            raw = key.a[0].a[0] if isinstance(key, S) and key.op == "utf8" and key.a[0].op == "text" else None
            klen = next((x for x in el.subs() if x.op == "rd"), klen)
            cx.ob("a key stands before its value", where, raw is not None and region(add(at, 4), klen)(raw) and klen.a[1] in (at, add(PTR, at)) and pos is add(add(at, 4), klen), w.show())
            if raw is None:
                return
            out = next((x[2] for x in w.at if x[0] == 1 and x[1] == "Uint32"), None)
            ok = isinstance(out, S) and out.op == "at" and starts(out) == (rng, h + cw)
            want = head + [(0, "Uint16", h, cnt), (1, "Uint32", out, S("len", key)), (1, "bytes", add(out, 4) if out is not None else None, key)]
            size = add(h + 2, S("sum", rng, add(add(4, S("len", key)), S("R", el))))
            end = S("looped", rng, add(add(add(at, 4), klen), S("W", add(add(at, 4), klen))))
            cx.ob("keys and values are written one after another", where, ok, w.show())
    cx.ob("what is written is the value under its tag", where, sorted(map(repr, want)) == sorted(map(repr, w.at)), "expected " + "; ".join(map(repr, want))[:400] + " got " + w.show())
    cx.ob("the memory asked for is what is written", where, len(w.alloc) == 1 and w.alloc[0] == size, f"asked {w.alloc} needed {size}")
    cx.ob("the callback gets what was written", where, len(w.cb) == 1 and w.cb[0][1] is MEM, repr(w.cb))
    cx.ob("reading goes on after the value", where, any(c == end or c is end for c in cur), f"expected {end} among {cur}")


def nested(cx, pg):
    """constants inside a list, as the events hand them over"""
    def f(js, mod, api):
        cb = pg.callback(js, api)
        m = len(js.events)
        js.call(cb, [Big(9), Arr([UNDEF, True, False, None, "x\u00e9"])])
        return m
    for p in pg.run(f, answers={"wasm_callback": Big(0)}):
        w = Writes(p.events[p.ret:]) if p.end == "ret" else None
        cx.ob("a list is written with its length and its values in order", f"{pg.name}: constants", w is not None and len(w.again) >= 5 and w.at[:2] == [(0, "Uint8", 0, 12), (0, "Uint32", 1, 5)], p.desc(6) if w is None else w.show())


# ---------------------------------------------------------------------------------------------------------- T02: paths of steps
WINDOW, DOCUMENT = S("g", "window"), S("g", "document")


def access(pg, steps, vals=None, **kw):
    """dom_access given these steps; a step may hold the value decoded from memory, as V"""
    def f(js, mod, api):
        def root(j, fn, args):
            del j.override[pg.decoder]
            v = j.call(fn, args) if vals else None

            def put(x):
                return Arr([put(y) for y in x]) if isinstance(x, (list, tuple)) else v if x is V else x
            j.mark = len(j.events)
            return put(steps)
        js.override[pg.decoder] = root
        return js.call(mod["dom_access"], [PTR, SIZE])
    ps = pg.run(f, values={**{rd("Uint8", o): v for o, v in (vals or {}).items()}, **kw.pop("values", {})}, **kw)
    pg.cx.cov["paths"] += len(ps)
    for p in ps:
        p.new = p.events[p.js.mark:]
    return ps


class V_:
    pass


V = V_()


def sets(p, name=None):
    return [e for e in p.new if e.kind == "set" and (name is None or e.name == name)]


def called(p, name):
    return [e for e in p.new if e.kind == "call" and e.name == name]


def host(x):
    """a value given to the page, as data"""
    x = unterm(x)
    if isinstance(x, Arr):
        return [("each", i.seq, host(i.val)) if isinstance(i, Each) else host(i) for i in x.items]
    if isinstance(x, Obj) and x.cls is None:
        return {**{k: host(v) for k, v in x.props.items()}, **{("each", k.seq, k.val) if isinstance(k, Each) else k: host(v) for k, v in x.entries}}
    return x


def same_host(a, b):
    if isinstance(a, bool) != isinstance(b, bool) or (a is None) != (b is None):
        return False
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same_host(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(same_host(a[k], b[k]) for k in a)
    return a is b or type(a) is type(b) and a == b


@check("T02", ())
def t02(cx):
    n = 0
    for pg in pages(cx):
        cx.need(pg.decoder is not None, f"{pg.name}: the function that decodes a value")

        def one(rule, what, ps, good):
            nonlocal n
            n += 1
            bad = [p for p in ps if not good(p)]
            cx.ob(rule, f"{pg.name}: {what}", ps and not bad, f"{len(ps)} paths; " + (bad[0].desc(5)[:600] if bad else ""))
        end = [["set", "p", "v"]]

        def lands(on):
            return lambda p: p.end == "ret" and p.ret == 0 and [(e.recv, e.name, host(e.args[0])) for e in sets(p)] == [(on, "p", "v")]
        r = "a path starts where it says and goes step by step"
        one(r, "window", access(pg, [["root", "window"]] + end), lands(WINDOW))
        one(r, "document", access(pg, [["root", "document"]] + end), lands(DOCUMENT))
        for kind in ("U32", "I32"):
            for i, name in ((1, "documentElement"), (2, "head"), (3, "body")):
                one(r, f"node {i} as {kind}", access(pg, [["root", V]] + end, {0: TAGS[kind]}, values={rd(SCALARS[kind][0], 1): i}), lands(S("get", DOCUMENT, name)))
            one(r, f"a node that is not there, as {kind}", access(pg, [["root", V]] + end, {0: TAGS[kind]}, values={rd(SCALARS[kind][0], 1): 77}), lambda p: p.end == "ret" and p.ret == 0 and not sets(p))
        a = S("get", WINDOW, "a")
        one(r, "a property of a property", access(pg, [["root", "window"], ["get", "a"], ["get", "b"]] + end), lands(S("get", a, "b")))
        one(r, "what a call gives", access(pg, [["root", "window"], ["get", "a"], ["call", "f"]] + end, answers={"f": S("p", "given")}), lands(S("p", "given")))
        one(r, "the page's own functions", access(pg, [["api"]] + end), lambda p: p.end == "ret" and p.ret == 0 and not sets(p))

        # values given to the page
        r = "a value given to the page is the value, as JavaScript has it"
        for kind in list(TAGS):
            for jk, jt in ([(None, None)] if kind != "Json" else JTAGS.items()):
                vals = {0: TAGS[kind]} if jk is None else {0: 14, 1: jt}
                h = 1 if jk is None else 2
                k = jk or kind
                want = {"True": True, "False": False, "Null": None, "Undefined": UNDEF}.get(k, Ev)
                if kind in SCALARS or k == "Number":
                    m = SCALARS[kind][0] if jk is None else "Float64"
                    want = rd(m, h)
                name = kind if jk is None else "Json " + jk

                def good(x, k=k, h=h, want=want):
                    x = host(x)
                    if want is not Ev:
                        return same_host(x, want)
                    if k in ("Vec", "String"):
                        t = x if k == "Vec" else x.a[0] if isinstance(x, S) and x.op == "text" else None
                        return t is not None and region(h + 4, rd("Uint32", h))(t)
                    if k == "List":
                        return isinstance(x, list) and len(x) == 1 and isinstance(x[0], tuple) and x[0][1] is S("range", rd("Uint32", h)) and inner(x[0][2])
                    if k == "Object":
                        return isinstance(x, dict) and len(x) == 1 and all(isinstance(q, tuple) and q[1] is S("range", rd("Uint16", h)) and q[2].op == "text" and inner(v) for q, v in x.items())
                    return False

                def inner(v):
                    while isinstance(v, S) and v.op == "R" and isinstance(v.a[0], S) and v.a[0].op == "R":
                        v = v.a[0]
                    return isinstance(v, S) and v.op == "R" and any(y.op == "at" for y in v.subs())
                one(r, f"set {name}", access(pg, [["root", "window"], ["set", "p", V]], vals), lambda p: p.end == "ret" and p.ret == 0 and len(sets(p)) == 1 and sets(p)[0].recv is WINDOW and good(sets(p)[0].args[0]))
                one(r, f"call with {name}", access(pg, [["root", "window"], ["get", "a"], ["call", "f", "first", V, "last"]], vals, answers={"f": UNDEF}),
                    lambda p: p.end == "ret" and p.ret == 0 and len(called(p, "f")) == 1 and called(p, "f")[0].recv is a and len(called(p, "f")[0].args) == 3
                    and called(p, "f")[0].args[0] == "first" and called(p, "f")[0].args[2] == "last" and good(called(p, "f")[0].args[1]))

        # values the page gives
        r = "what the page gives comes back as the value it is"
        txt = S("p", "txt")
        byt = S("p", "byt")
        flt = S("pn", "flt")
        for name, v, want in [
                ("a text", txt, [(0, "Uint8", 0, 11), (0, "Uint32", 1, S("len", S("utf8", txt))), (0, "bytes", 5, S("utf8", txt))]),
                ("an empty text", "", [(0, "Uint8", 0, 11), (0, "Uint32", 1, S("len", S("utf8", S("s", "")))), (0, "bytes", 5, S("utf8", S("s", "")))]),
                ("true", True, [(0, "Uint8", 0, 6)]), ("false", False, [(0, "Uint8", 0, 7)]), ("null", None, [(0, "Uint8", 0, 8)]),
                ("0", 0, [(0, "Uint8", 0, 2), (0, "Int32", 1, 0)]), ("-1", -1, [(0, "Uint8", 0, 2), (0, "Int32", 1, -1)]),
                ("2^31-1", 2 ** 31 - 1, [(0, "Uint8", 0, 2), (0, "Int32", 1, 2 ** 31 - 1)]), ("-2^31", -2 ** 31, [(0, "Uint8", 0, 2), (0, "Int32", 1, -2 ** 31)]),
                ("2.5", 2.5, [(0, "Uint8", 0, 5), (0, "Float64", 1, 2.5)]), ("2^31", 2 ** 31, [(0, "Uint8", 0, 5), (0, "Float64", 1, 2 ** 31)]), ("2^53", 2 ** 53, [(0, "Uint8", 0, 5), (0, "Float64", 1, 2 ** 53)]),
                ("a big integer", Big(7), [(0, "Uint8", 0, 4), (0, "BigInt64", 1, Big(7))]),
                ("bytes", byt, [(0, "Uint8", 0, 10), (0, "Uint32", 1, S("len", byt)), (0, "bytes", 5, byt)]),
                ("undefined", UNDEF, None)]:
            def back(p, want=want):
                w = Writes(p.new)
                if want is None:
                    return p.end == "ret" and p.ret == 0 and not w.at
                return p.end == "ret" and p.ret is MEM and sorted(map(repr, w.at)) == sorted(map(repr, want)) and not w.stale
            kinds = {txt: STR, byt: BYTES, flt: NUM}
            one(r, name + ", of a call", access(pg, [["root", "window"], ["get", "a"], ["call", "f"]], answers={"f": v}, kinds=kinds), back)
            one(r, name + ", of a property", access(pg, [["root", "window"], ["get", "a"]], values={(WINDOW, "a"): v}, kinds=kinds), back)
        one(r, "a function", access(pg, [["root", "window"], ["get", "a"]], values={(WINDOW, "a"): S("p", "fun")}, kinds={S("p", "fun"): frozenset(["function"])}), lambda p: p.end == "ret" and p.ret == 0)
        obj = S("p", "obj")

        def asjson(p):
            w = Writes(p.new)
            return p.end == "ret" and p.ret is MEM and w.at[:1] == [(0, "Uint8", 0, 14)] and (0, "Uint8", 1, 7) in w.at
        ps = access(pg, [["root", "window"], ["get", "a"]], values={(WINDOW, "a"): obj}, kinds={obj: frozenset(["object"])})
        one(r, "an object", [p for p in ps if not any("item" in {x.op for x in t.subs()} for t, v in p.cond)] or ps[:1], asjson)
        ps = access(pg, [["root", "window"], ["get_props", "n", "t"]], values={(WINDOW, "n"): 5, (WINDOW, "t"): "word"})

        def props(p):
            w = Writes(p.new)
            inner = []
            for d, t in w.again:
                while isinstance(t, S) and t.op == "R":
                    t = t.a[0]
                inner.append(unterm(t))
            return p.end == "ret" and p.ret is MEM and w.at[:2] == [(0, "Uint8", 0, 14), (0, "Uint8", 1, 7)] and w.at[2][1:] == ("Uint16", 2, 2) \
                and [x[3] for x in w.at if x[1] == "bytes"] == [utf8("n"), utf8("t")] and set(inner) == {5, "word"}
        one("get_props gives each property named with its value", "a number and a text", ps, props)

        # what fails
        r = "what cannot be done gives nothing and stops the path"
        for name, steps in [("an unknown step", [["nope"]]), ("a step that is not a list", ["root"]), ("a step without a name", [[]]), ("an unknown root", [["root", "else"]]), ("root without a name", [["root"]]), ("root with too much", [["root", "window", "window"]]),
                            ("a property without a name", [["root", "window"], ["get"]]), ("a property with too much", [["root", "window"], ["get", "a", "b"]]), ("a call without a name", [["root", "window"], ["call"]]),
                            ("a set with too much", [["root", "window"], ["set", "a", "b", "c"]]), ("api with too much", [["api", "x"]]), ("get_props of what is no name", [["root", "window"], ["get_props", True]])]:
            one(r, name, access(pg, steps + [["root", "window"]] + end), lambda p: p.end == "ret" and p.ret == 0 and not sets(p))
        for name, steps, fault in [("a property that throws", [["root", "window"], ["get", "a"]], "^get:a$"), ("a call that throws", [["root", "window"], ["get", "a"], ["call", "f"]], "^call:f$"), ("a set that throws", [["root", "window"], ["set", "q", "v"]], "^set:q$"),
                                   ("a property of several that throws", [["root", "window"], ["get_props", "b", "a"]], "^get:a$")]:
            ps = access(pg, steps + [["root", "window"]] + end, faults=re.compile(fault), answers={"f": UNDEF})
            hit = [p for p in ps if any(t.op == "fails" and v for t, v in p.cond)]
            one(r, name, hit, lambda p: p.end == "ret" and p.ret == 0 and not sets(p, "p"))
        ps = pg.run(lambda js, mod, api: js.call(mod["dom_access"], [PTR, SIZE]), values={rd("Uint8", 0): 6})
        one(r, "what is no list of steps", ps, lambda p: p.end == "ret" and p.ret == 0)
    cx.floor("accesses followed", n, 150)


# ---------------------------------------------------------------------------------------------------------- T03: DOM commands
HEAD, BODY, HTML = S("get", DOCUMENT, "head"), S("get", DOCUMENT, "body"), S("get", DOCUMENT, "documentElement")
CLASSES = {"input": "HTMLInputElement", "textarea": "HTMLTextAreaElement", "select": "HTMLSelectElement"}


def bridge(pg):
    if "bridge" not in pg.memo:
        ps = pg.run(lambda js, mod, api: pg.callback(js, api).node, answers={"wasm_callback": Big(0)})
        pg.memo["bridge"] = ps[0].ret if ps and ps[0].end == "ret" else None
    return pg.memo["bridge"]


def given(answer):
    """in place of the function that hands a value to a callback: the call is recorded"""
    def f(js, fn, args):
        js.emit("callback", args[0].v if isinstance(args[0], Big) else args[0], None, [args[1] if len(args) > 1 else UNDEF])
        return answer
    return f


def nodekinds(js, t):
    if t.op == "instanceof" and isinstance(t.a[1], S) and t.a[1].op == "g":
        x, c = t.a[0], t.a[1].a[0]
        if x in (HEAD, BODY, HTML):
            return c in ("Node", "Element", "HTMLElement", {HEAD: "HTMLHeadElement", BODY: "HTMLBodyElement", HTML: "HTMLHtmlElement"}[x])
        if x.op == "node":
            if x.a[0] == "createTextNode":
                return c in ("Node", "Text", "CharacterData")
            if x.a[0] == "createComment":
                return c in ("Node", "Comment", "CharacterData")
            name = unterm(x.a[-1])
            own = {"svg": "SVGSVGElement", "path": "SVGPathElement"}.get(name)
            if own:
                return c in ("Node", "Element", "SVGElement", own)
            return c in ("Node", "Element", "HTMLElement", CLASSES.get(name), "HTMLAnchorElement" if name == "a" else "HTMLDivElement")
        if x.op == "p" and x.a[0].startswith("event:"):
            return c in ("Event", "UIEvent", x.a[0][6:])
        if x.op == "p" and x.a[0].startswith("target:"):
            return c in ("Node", "Element", "EventTarget", "HTMLElement", x.a[0][7:])
    return None


def jsv(x):
    if isinstance(x, dict):
        o = Obj()
        o.props.update({k: jsv(v) for k, v in x.items()})
        return o
    if isinstance(x, (list, tuple)):
        return Arr([jsv(y) for y in x])
    return x


def updates(pg, batches, then=None, answer=UNDEF, **kw):
    """the DOM after these batches of commands; marks: where each batch, and what follows, begins"""
    def f(js, mod, api):
        js.override[id(bridge(pg))] = given(answer)
        d = js.getprop(api, "dom")
        js.marks = []
        for b in batches:
            js.marks.append(len(js.events))
            js.call(js.getprop(d, "dom_bulk_update"), [Arr([jsv(c) for c in b])], d)
        js.marks.append(len(js.events))
        return then(js, [e for e in js.events[js.marks[0]:]]) if then else None
    decide = kw.pop("decide", None)
    ps = pg.run(f, decide=lambda js, t: next((v for v in (nodekinds(js, t), decide(js, t) if decide else None) if v is not None), None), **kw)
    pg.cx.cov["paths"] += len(ps)
    for p in ps:
        m = getattr(p.js, "marks", []) + [len(p.events)]
        p.part = [p.events[a:b] for a, b in zip(m, m[1:])]
        p.all = p.events[m[0]:]
    return ps


def made(evs):
    """node: what it is"""
    return {e.res: ({"createElement": "element", "createElementNS": "svg", "createTextNode": "text", "createComment": "comment"}[e.res.a[0]], unterm(e.res.a[-1])) for e in evs if e.kind == "call" and isinstance(e.res, S) and e.res.op == "node"}


def placed(evs):
    """(parent, child, before)"""
    out = []
    for e in evs:
        if e.kind == "call" and e.name == "insertBefore":
            r = e.args[1] if len(e.args) > 1 else None
            out.append((e.recv, e.args[0], None if r is UNDEF else r))
        elif e.kind == "call" and e.name in ("appendChild", "append"):
            out.extend((e.recv, x, None) for x in e.args)
        elif e.kind == "call" and e.name == "before":
            out.extend(("before", x, e.recv) for x in e.args)
    return out


def removed(evs):
    return [e.recv if e.name == "remove" else e.args[0] for e in evs if e.kind == "call" and (e.name == "remove" and not e.args or e.name == "removeChild")]


def texts(evs):
    return [(e.recv, e.args[0]) for e in evs if e.kind == "set" and e.name in ("textContent", "data", "nodeValue")]


def acts(evs, *names):
    return [(e.recv, e.name, [unterm(term(x)) for x in e.args]) for e in evs if e.kind == "call" and e.name in names]


def props(evs):
    return [(e.recv, e.name, e.args[0]) for e in evs if e.kind == "set"]


def callbacks(evs):
    return [(e.name, host(e.args[0])) for e in evs if e.kind == "callback"]


def find(m, *what):
    return next((n for n, w in m.items() if w == what), None)


@check("T03", ())
def t03(cx):
    n = 0
    for pg in pages(cx):
        cx.need(bridge(pg) is not None, f"{pg.name}: the function that calls back into the module")

        def one(rule, what, ps, good):
            nonlocal n
            n += 1
            bad = []
            for p in ps:
                try:
                    ok = p.end == "ret" and good(p)
                except (IndexError, KeyError, AttributeError, TypeError) as e:
                    ok = False
                if not ok:
                    bad.append(p)
            cx.ob(rule, f"{pg.name}: {what}", ps and not bad, f"{len(ps)} paths; " + (bad[0].desc(8)[:700] if bad else ""))
        X, Y = S("p", "x"), S("p", "y")
        ks = {X: STR, Y: STR}
        new = {"type": "create_node", "id": 10, "name": "div"}
        put = {"type": "insert_before", "parent": 3, "child": 10, "ref_id": None}
        r = "every command does to the page what it says"
        one(r, "create and insert", updates(pg, [[new, put]]), lambda p: list(made(p.all).values()) == [("element", "div")] and placed(p.all) == [(BODY, find(made(p.all), "element", "div"), None)])
        for i, t in ((1, HTML), (2, HEAD)):
            one(r, f"insert into {i}", updates(pg, [[new, {**put, "parent": i}]]), lambda p: placed(p.all) == [(t, find(made(p.all), "element", "div"), None)])
        tree = [new, {"type": "create_node", "id": 11, "name": "p"}, {"type": "create_text", "id": 12, "value": X}, {"type": "create_comment", "id": 13, "value": Y}, put,
                {**put, "parent": 10, "child": 11}, {**put, "parent": 10, "child": 12, "ref_id": 11}, {**put, "parent": 11, "child": 13}]

        def built(p):
            m = made(p.all)
            d, q, t, c = find(m, "element", "div"), find(m, "element", "p"), find(m, "text", X), find(m, "comment", Y)
            p.n = d, q, t, c
            return len(m) >= 4 and placed(p.all)[:4] == [(BODY, d, None), (d, q, None), (d, t, q), (q, c, None)]
        one(r, "a tree, with the places asked for", updates(pg, [tree], kinds=ks), lambda p: built(p) and len(placed(p.all)) == 4 and len(made(p.all)) == 4)
        one(r, "in two updates", updates(pg, [tree[:4], tree[4:]], kinds=ks), lambda p: built(p) and not placed(p.part[0]))
        for name in ("svg", "path"):
            one(r, f"<{name}>", updates(pg, [[{**new, "name": name}, put]]), lambda p: [w[0] for w in made(p.all).values()] == ["svg"] and len(placed(p.all)) == 1 and any(e.name == "createElementNS" and e.args[0] == "http://www.w3.org/2000/svg" for e in p.all))
        Z = S("p", "z")
        one(r, "a text changed", updates(pg, [tree, [{"type": "update_text", "id": 12, "value": Z}]], kinds={**ks, Z: STR}), lambda p: built(p) and texts(p.part[1]) == [(p.n[2], Z)] and not texts(p.part[0]))
        one(r, "an attribute set and removed", updates(pg, [tree, [{"type": "set_attr", "id": 11, "name": "class", "value": X}, {"type": "remove_attr", "id": 11, "name": "id"}]], kinds=ks),
            lambda p: built(p) and acts(p.all, "setAttribute", "removeAttribute") == [(p.n[1], "setAttribute", ["class", X]), (p.n[1], "removeAttribute", ["id"])] and not props(p.part[1]))
        for tag, want in (("input", {"value"}), ("textarea", {"value", "defaultValue"}), ("div", set())):
            one(r, f"the value of <{tag}>", updates(pg, [[{**new, "name": tag}], [{"type": "set_attr", "id": 10, "name": "value", "value": X}], [{"type": "remove_attr", "id": 10, "name": "value"}]], kinds=ks),
                lambda p: acts(p.part[1], "setAttribute")[0][2] == ["value", X] and {(k, v) for _, k, v in props(p.part[1])} == {(k, X) for k in want}
                and acts(p.part[2], "removeAttribute")[0][2] == ["value"] and {(k, v) for _, k, v in props(p.part[2])} == {(k, "") for k in want} and {a for a, _, _ in props(p.part[1]) + props(p.part[2])} <= {find(made(p.all), "element", tag)})
            one(r, f"another attribute of <{tag}>", updates(pg, [[{**new, "name": tag}], [{"type": "set_attr", "id": 10, "name": "title", "value": X}], [{"type": "remove_attr", "id": 10, "name": "title"}]], kinds=ks),
                lambda p: not props(p.part[1]) and not props(p.part[2]) and acts(p.part[1], "setAttribute")[0][2] == ["title", X])
        for i, w, cmd in ((0, "element", "remove_node"), (2, "text", "remove_text"), (3, "comment", "remove_comment")):
            one(r, f"{w} removed", updates(pg, [tree, [{"type": cmd, "id": 10 + i}]], kinds=ks), lambda p: built(p) and removed(p.part[1]) == [p.n[i]] and not removed([e for e in p.part[0] if not e.loops]))
            one("what was removed is forgotten", w, updates(pg, [tree, [{"type": cmd, "id": 10 + i}], [{**put, "child": 10 + i}, {"type": "create_text", "id": 50, "value": "after"}]], kinds=ks),
                lambda p: built(p) and not placed(p.part[2]) and ("text", "after") in made(p.part[2]).values())

        def css(p):
            m = made(p.all)
            st = find(m, "element", "style")
            pl = placed(p.all)
            t = [c for a, c, _ in pl if a is st]
            txt = t[0].a[-1] if len(t) == 1 else next((v for a, v in texts(p.all) if a is st), None)
            if not (isinstance(txt, S) and txt.op == "cat"):
                return False
            parts = [x.a[0] if isinstance(x, S) and x.op == "s" else x for x in txt.a]
            flat = [x if isinstance(x, S) else x.replace(" ", "") for x in parts]
            return flat == [X, "{", Y, "}"] and [(a, b) for a, c, b in pl if c is st] == [(HEAD, None)]
        one(r, "a CSS rule", updates(pg, [[{"type": "insert_css", "selector": X, "value": Y}]], kinds=ks), css)

        # order and failures
        rr = "commands are done in order, and one that fails does not stop the rest"
        for name, bad in (("a text not known", {"type": "update_text", "id": 99, "value": "q"}), ("an element not known", {"type": "set_attr", "id": 99, "name": "q", "value": "q"}), ("no such node", {"type": "remove_node", "id": 99}),
                          ("a parent not known", {**put, "parent": 99}), ("a place not known", {**put, "ref_id": 99}), ("an unknown command", {"type": "nope", "id": 10}), ("a text that is an element", {"type": "update_text", "id": 10, "value": "q"})):
            one(rr, name, updates(pg, [[new, bad, {"type": "create_text", "id": 51, "value": "after"}, {**put, "child": 51}]]),
                lambda p: placed(p.all) == [(BODY, find(made(p.all), "text", "after"), None)] and not texts(p.all) and not [a for a in acts(p.all, "setAttribute")])
        ps = updates(pg, [[new, {"type": "set_attr", "id": 10, "name": "q", "value": "q"}, put]], faults=re.compile("^call:setAttribute$"))
        one(rr, "the page refuses", [p for p in ps if any(t.op == "fails" and v for t, v in p.cond)], lambda p: placed(p.all) == [(BODY, find(made(p.all), "element", "div"), None)])

        # the first update
        def cleared(p):
            gone = [e for e in p.part[0] if e.kind == "call" and e.name in ("remove", "removeChild") and e.loops]
            nodes = {(e.recv if e.name == "remove" else e.args[0]) for e in gone}
            want = {S("item", S("get", x, "childNodes")) for x in (HEAD, BODY)}
            first = {x: next((i for i, e in enumerate(p.part[0]) if e.kind == "over" and e.recv is S("get", x, "childNodes")), 10 ** 9) for x in (HEAD, BODY)}
            ins = min([i for i, e in enumerate(p.part[0]) if e.kind == "call" and e.name in ("insertBefore", "appendChild", "append")])
            return nodes == want and max(first.values()) < ins and not removed(p.part[1])
        one("the first update takes away what the server sent, and nothing else", "head and body", updates(pg, [[new, put], [{**new, "id": 11, "name": "p"}, {**put, "child": 11}]]), cleared)

        # focus
        def focus(js, evs):
            t = [e for e in evs if e.kind == "call" and e.name == "setTimeout"]
            js.late = len(js.events)
            for e in t:
                js.call(e.args[0], [])
            return len(t)
        for nm in ("autofocus", "autoFocus"):
            one("an element set to take the focus takes it once it is in the page", nm, updates(pg, [[{**new, "name": "input"}, {"type": "set_attr", "id": 10, "name": nm, "value": ""}, put]], then=focus),
                lambda p: p.ret >= 1 and acts(p.events[p.js.late:], "focus") == [(find(made(p.all), "element", "input"), "focus", [])] and not acts(p.events[:p.js.late], "focus"))
        one("an element set to take the focus takes it once it is in the page", "another attribute", updates(pg, [[{**new, "name": "input"}, {"type": "set_attr", "id": 10, "name": "class", "value": ""}, put]], then=focus), lambda p: not acts(p.all, "focus"))
        events(cx, pg, one, new, put)
    cx.floor("commands and events followed", n, 120)


def events(cx, pg, one, new, put):
    E = lambda c: S("p", "event:" + c)
    add = lambda ev, cid=21, node=10: {"type": "callback_add", "id": node, "event_name": ev, "callback_id": cid}
    rem = lambda ev, cid=21, node=10: {"type": "callback_remove", "id": node, "event_name": ev, "callback_id": cid}

    def fire(ev, kind="Event"):
        def f(js, evs):
            l = [e for e in evs if e.kind == "call" and e.name == "addEventListener" and e.args[0] == ev]
            js.fired = len(js.events)
            if len(l) != 1:
                return None
            e = S("p", "event:" + kind)
            js.kinds[e] = frozenset(["object"])
            js.call(l[0].args[1], [e])
            return l[0]
        return f

    def after(p):
        return p.events[p.js.fired:]

    def stops(p):
        return sorted(a[1] for a in acts(after(p), "preventDefault", "stopPropagation", "stopImmediatePropagation"))
    r = "an event of the element reaches its callback with its data"
    for ev, stop in (("click", True), ("blur", False), ("mouseenter", False), ("mouseleave", False), ("load", None)):
        ps = updates(pg, [[new, add(ev), put]], then=fire(ev))
        one(r, ev, ps, lambda p: p.ret is not None and p.ret.recv is find(made(p.all), "element", "div") and callbacks(after(p)) == [(21, UNDEF)] and (stop is None or stops(p) == (["preventDefault"] if stop else [])))
    for ev in ("mousedown", "mouseup"):
        for ans, stop in ((True, ["preventDefault"]), (False, []), (UNDEF, [])):
            one(r, f"{ev}, answered {ans}", updates(pg, [[new, add(ev), put]], then=fire(ev), answer=ans), lambda p: p.ret.recv is find(made(p.all), "element", "div") and callbacks(after(p)) == [(21, UNDEF)] and stops(p) == stop)
    for ev, dom_ev, on in (("keydown", "keydown", None), ("hook_keydown", "keydown", DOCUMENT)):
        for ans, stop in ((True, ["preventDefault", "stopPropagation"]), (False, []), (UNDEF, []), ("x", [])):
            e = E("KeyboardEvent")
            one(r, f"{ev}, answered {ans}", updates(pg, [[new, add(ev), put]], then=fire(dom_ev, "KeyboardEvent"), answer=ans),
                lambda p: p.ret.recv is (on if on is not None else find(made(p.all), "element", "div")) and callbacks(after(p)) == [(21, [S("get", e, k) for k in ("key", "code", "altKey", "ctrlKey", "shiftKey", "metaKey")])] and stops(p) == stop)
    for ev, tags in (("input", ("HTMLInputElement", "HTMLTextAreaElement")), ("change", ("HTMLInputElement", "HTMLTextAreaElement", "HTMLSelectElement"))):
        for tag in tags:
            t = S("p", "target:" + tag)
            one(r, f"{ev} of {tag}", updates(pg, [[new, add(ev), put]], then=fire(ev), values={(E("Event"), "target"): t}, kinds={t: frozenset(["object"])}), lambda p: callbacks(after(p)) == [(21, S("get", t, "value"))])
        t = S("p", "target:HTMLDivElement")
        one(r, f"{ev} of what has no value", updates(pg, [[new, add(ev), put]], then=fire(ev), values={(E("Event"), "target"): t}, kinds={t: frozenset(["object"])}), lambda p: not callbacks(after(p)))
    ps = updates(pg, [[new, add("drop"), put]], then=fire("drop", "DragEvent"))

    def dropped(p):
        cb = callbacks(after(p))
        if not cb:
            return "preventDefault" in stops(p)
        (cid, v), = cb
        l = v[0]
        return cid == 21 and len(v) == 1 and len(l) == 1 and isinstance(l[0], tuple) and "preventDefault" in stops(p) and file_of(l[0])

    def file_of(each):
        f = each[2]
        seq = each[1]
        items = next((x for x in seq.subs() if isinstance(x, S) and x.op == "get" and x.a[1] == "items"), None)
        if items is None or seq not in (items, S("range", S("len", items))):
            return False
        return isinstance(f, list) and len(f) == 2 and isinstance(f[0], S) and f[0].op == "get" and f[0].a[1] == "name" and isinstance(f[1], S) and f[1].op == "bytes" and f[0].a[0] in f[1].subs() and any(x.op == "m" and x.a[1] == "arrayBuffer" for x in f[1].subs())
    one(r, "drop", ps, dropped)
    one(r, "drop, with a file", [p for p in ps if p.end == "ret" and callbacks(after(p))][:1], dropped)
    # adding and taking away
    r = "a callback taken away is not called again, and others stay"

    def pair(p, name, on=None):
        a = [e for e in p.all if e.kind == "call" and e.name == "addEventListener" and e.args[0] == name]
        b = [e for e in p.part[1] if e.kind == "call" and e.name == "removeEventListener"]
        cap = lambda e: e.args[2] if len(e.args) > 2 else False
        return len(b) == 1 and b[0].args[0] == name and b[0].recv is a[0].recv and b[0].args[1] is a[0].args[1] and cap(b[0]) is cap(a[0]) and (on is None or b[0].recv is on)
    for ev in ("click", "input", "change", "blur", "mousedown", "mouseup", "mouseenter", "mouseleave", "keydown", "drop", "load"):
        one(r, ev, updates(pg, [[new, add(ev), add("blur" if ev == "click" else "click", 22), put], [rem(ev)]]), lambda p: pair(p, ev))
    one(r, "hook_keydown", updates(pg, [[new, add("hook_keydown"), add("keydown", 22), put], [rem("hook_keydown")]]), lambda p: pair(p, "keydown", DOCUMENT))
    one(r, "one not there", updates(pg, [[new, add("click"), put], [rem("click", 33), {"type": "create_text", "id": 51, "value": "after"}]]), lambda p: not [e for e in p.all if e.name == "removeEventListener"] and ("text", "after") in made(p.all).values())
    one(r, "twice", updates(pg, [[new, add("click"), put], [rem("click")], [rem("click")], [add("click")]]), lambda p: len([e for e in p.all if e.name == "removeEventListener"]) == 1 and len([e for e in p.all if e.name == "addEventListener" and e.args[0] == "click"]) == 2)
    # links
    r = "a click on a link within the application moves to it without loading a page"
    H = S("p", "href")
    for name, href, moves in (("no address", None, False), ("a mark", "#top", False), ("http", "http://a.b/c", False), ("https", "https://a.b/c", False), ("another host", "//a.b/c", False), ("a path", "/page?x=1#y", True), ("a relative path", "next", True), ("a path naming http", "/http://", True)):
        ps = updates(pg, [[{**new, "name": "a"}, put]], then=fire("click"), answers={"getAttribute": href}, decide=lambda js, t: False if t.op == "===" and S("s", str(href)) in t.a else None)
        one(r, name, [p for p in ps], lambda p: (stops(p) == ["preventDefault"] and [x[2] for x in acts(after(p), "pushState")] == [[None, "", href]] and [x[2] for x in acts(after(p), "scrollTo")] == [[0, 0]]) if moves
            else (not stops(p) and not acts(after(p), "pushState", "replaceState", "scrollTo")))
    ps = updates(pg, [[{**new, "name": "a"}, put]], then=fire("click"), answers={"getAttribute": "/same"}, decide=lambda js, t: True if t.op == "===" and S("s", "/same") in t.a else None)
    one(r, "the address it is at", ps, lambda p: stops(p) == ["preventDefault"] and not acts(after(p), "pushState", "replaceState"))
    one(r, "not a link", updates(pg, [[new, put]]), lambda p: not [e for e in p.all if e.kind == "call" and e.name == "addEventListener"])


# ---------------------------------------------------------------------------------------------------------- T04-T07: the page's own functions
class Table:
    """obligations over every path of a use of the page's functions"""
    def __init__(self, cx, pg):
        self.cx, self.pg, self.n = cx, pg, 0

    def one(self, rule, what, ps, good):
        self.n += 1
        bad = []
        for p in ps:
            try:
                ok = good(p)
            except (IndexError, AttributeError, TypeError, KeyError) as e:
                ok, p.why = False, repr(e)
            if not ok:
                bad.append(p)
        self.cx.ob(rule, f"{self.pg.name}: {what}", bool(ps) and not bad, f"{len(ps)} paths; " + (bad[0].desc(6)[:600] if bad else ""))


def use(js, api, obj, name, *a):
    o = js.getprop(api, obj) if obj else api
    return js.call(js.getprop(o, name), list(a), o)


def mark(js, name):
    js.emit("mark", name, None, [])


def offer(pg, f, **kw):
    """what f(js, api) does, with calls back into the module recorded; p.at: the events after each mark"""
    def g(js, mod, api):
        js.override[id(bridge(pg))] = given(UNDEF)
        js.mark = len(js.events)
        r = f(js, api)
        js.drain()
        return r
    ps = pg.run(g, **kw)
    pg.cx.cov["paths"] += len(ps)
    for p in ps:
        p.new = p.events[p.js.mark:]
        p.at = marked(p.new)
    return ps


def marked(evs):
    at, k = collections.defaultdict(list), ""
    for e in evs:
        if e.kind == "mark":
            k = e.name
        else:
            at[k].append(e)
    return at


def listener(js, name, on=None):
    """what was last registered for an event"""
    return [e.args[-1] if e.kind == "set" else e.args[1] for e in js.events if (on is None or e.recv is on) and (e.kind == "call" and e.name == "addEventListener" and e.args[0] == name or e.kind == "set" and e.name == "on" + name)][-1]


def fired(js, name):
    """the function last given to a timer"""
    return [e for e in js.events if e.kind == "call" and e.name == name][-1].args[0]


def calls(evs, *names):
    return [e for e in evs if e.kind == "call" and e.name in names]


def cut(t):
    """the parts of a text put together"""
    t = unterm(t)
    return [unterm(x) for x in t.a] if isinstance(t, S) and t.op == "cat" else [t]


def later(p, t, by):
    """is the date this text shows `by` milliseconds after now"""
    if not (isinstance(t, S) and t.op == "m" and t.a[1] in ("toUTCString", "toGMTString")):
        return False
    d = t.a[0]
    at = [e.args[0] for e in p.new if e.kind == "call" and e.name == "setTime" and e.recv is d] or [plain(x) for x in d.a[2:]]
    now = [x for x in (at[-1].subs() if at and isinstance(at[-1], S) else []) if isinstance(x, S) and x.op == "m" and x.a[1] in ("getTime", "valueOf", "now")]
    return len(now) >= 1 and add(plain(at[-1]), now[0], -1) == by


@check("T04", ())
def t04(cx):
    n = 0
    for pg in pages(cx):
        cx.need(pg.decoder is not None, f"{pg.name}: the function that decodes a value")
        cx.need(bridge(pg) is not None, f"{pg.name}: the function that calls back into the module")
        t = Table(cx, pg)
        one, new = t.one, S("p", "new")

        # timers
        r = "a timer calls back what it was set for, until it is cleared"
        for set_, clear, host_set, host_clear in (("interval_set", "interval_clear", "setInterval", "clearInterval"), ("timeout_set", "timeout_clear", "setTimeout", "clearTimeout")):
            def f(js, api):
                v = use(js, api, "interval", set_, 250, Big(5))
                mark(js, "first")
                js.call(fired(js, host_set), [])
                mark(js, "second")
                js.call(fired(js, host_set), [])
                mark(js, "clear")
                use(js, api, "interval", clear, v)
                return v
            one(r, set_, offer(pg, f, answers={host_set: 41}), lambda p: p.end == "ret" and p.ret == 41 and [[host(x) for x in e.args[1:]] for e in calls(p.at[""], host_set)] == [[250]] and not callbacks(p.at[""])
                and len(calls(p.new, "setInterval", "setTimeout")) == 1 and callbacks(p.at["first"]) == callbacks(p.at["second"]) == [(5, UNDEF)]
                and [[host(x) for x in e.args] for e in calls(p.at["clear"], host_clear)] == [[41]] and not calls(p.at["first"] + p.at["second"], host_clear))

        # cookies
        val = S("p", "val")
        r = "a cookie holds its value encoded, for the whole site, for the time given"

        def cookie(text, by=90000):
            def good(p):
                s = sets(p, "cookie")
                if p.end != "ret" or len(s) != 1 or s[0].recv is not DOCUMENT:
                    return False
                c = cut(s[0].args[0])
                body = c[:-1] if c else c
                return c[0] == "name=" and c[1] is S("urie", text) and isinstance(c[2], str) and c[2].startswith(";") and c[2].endswith("expires=") and later(p, c[3], by) \
                    and len(c) == 5 and {x.strip().lower() for x in c[4].split(";")[1:]} == {"path=/", "samesite=strict"} and c[4].startswith(";") and len(body) == 4
            return good
        one(r, "set", offer(pg, lambda js, api: use(js, api, "cookie", "set", "name", val, Big(90)), kinds={val: STR}), cookie(val))
        one(r, "set for years", offer(pg, lambda js, api: use(js, api, "cookie", "set", "name", val, Big(10 ** 8)), kinds={val: STR}), cookie(val, 10 ** 11))
        one(r, "set_json", offer(pg, lambda js, api: use(js, api, "cookie", "set_json", "name", val, Big(90)), kinds={val: frozenset(["object"]), S("m", S("g", "JSON"), "stringify", val): STR}), cookie(S("m", S("g", "JSON"), "stringify", val)))
        r = "a cookie is found by its whole name and decoded"
        for jar, want in [("name=v", "v"), ("a=1; name=v; b=2", "v"), ("a=1;name=v", "v"), ("name=x%20y%3D%3B", "x y=;"), ("xname=1; name=2; namex=3", "2"), ("namex=3; nam=4", ""), ("other=name", ""), ("", ""), ("name=", ""), ("broken; name=v", "v"), ("Name=1; name=2", "2"), ("other=name=v; name=w", "w")]:
            one(r, f"get from {jar!r}", offer(pg, lambda js, api: use(js, api, "cookie", "get", "name"), values={(DOCUMENT, "cookie"): jar}), lambda p: p.end == "ret" and p.ret == want)
        r = "a JSON cookie is parsed, and null when it is not there or is no JSON"
        for jar, want in [("a=1; name=%5B1%5D", "[1]"), ("a=1", None), ("name=", None)]:
            ps = offer(pg, lambda js, api: use(js, api, "cookie", "get_json", "name"), values={(DOCUMENT, "cookie"): jar}, faults=re.compile("parse"))
            one(r, f"get_json from {jar!r}", ps, lambda p: p.end == "ret" and (p.ret is None if want is None or any(q.op == "fails" and v for q, v in p.cond) else isinstance(p.ret, S) and p.ret.op == "m" and p.ret.a[1] == "parse" and unterm(p.ret.a[2]) == want))
            one(r, f"get_json from {jar!r}: both ways", [ps[0]] if ps else [], lambda p: len(ps) == (1 if want is None else 2))

        # environment, time, chance
        r = "environment, time zone and random numbers are the page's"
        html = S("get", DOCUMENT, "documentElement")
        one(r, "get_env", offer(pg, lambda js, api: use(js, api, None, "get_env", "base-url"), answers={"getAttribute": S("p", "given")}), lambda p: p.end == "ret" and p.ret is S("p", "given") and [(e.recv, [host(x) for x in e.args]) for e in calls(p.new, "getAttribute")] == [(html, ["data-env-base-url"])])
        one(r, "isBrowser", offer(pg, lambda js, api: use(js, api, None, "isBrowser")), lambda p: p.end == "ret" and p.ret is True)
        one(r, "getTimezoneOffset", offer(pg, lambda js, api: use(js, api, None, "getTimezoneOffset")), lambda p: p.end == "ret" and isinstance(p.ret, S) and p.ret.op == "m" and p.ret.a[1] == "getTimezoneOffset" and p.ret.a[0].op == "new" and p.ret.a[0].a[0] == "Date" and len(p.ret.a[0].a) == 2)
        rnd = S("m", S("g", "Math"), "random")
        whole = S("m", S("g", "Math"), "floor", S("*", rnd, S("num", "7")))
        for lo in (0, 3):
            ps = offer(pg, lambda js, api: use(js, api, None, "getRandom", lo, lo + 6))
            one(r, f"getRandom from {lo}", ps, lambda p: p.end == "ret" and chance(p.ret, lo, 7))

        # locations
        for obj, event, read in (("hashRouter", "hashchange", S("urid", S("m", S("get", S("g", "location"), "hash"), "slice", S("num", "1")))), ("historyLocation", "popstate", S("cat", *[S("get", S("g", "location"), k) for k in ("pathname", "search", "hash")]))):
            r = "a change of location is told to everyone who asked, with where it is now"
            now = S("p", "hash now")
            then = swapped(read, S("get", S("g", "location"), "hash"), now)

            def f(js, api):
                use(js, api, obj, "add", Big(5))
                use(js, api, obj, "add", Big(6))
                js.values[(S("g", "location"), "hash")] = now
                mark(js, "fire")
                js.call(listener(js, event, WINDOW), [S("p", "event")])
                use(js, api, obj, "remove", Big(5))
                mark(js, "again")
                js.call(listener(js, event, WINDOW), [S("p", "event")])
            one(r, obj, offer(pg, f), lambda p: p.end == "ret" and not callbacks(p.at[""]) and callbacks(p.at["fire"]) == [(5, then), (6, then)] and callbacks(p.at["again"]) == [(6, then)] and not sets(p))
            one(r, obj + ", asked", offer(pg, lambda js, api: use(js, api, obj, "get")), lambda p: p.end == "ret" and p.ret is read)
            for act in ("push", "replace") if obj == "historyLocation" else ("push",):
                r = "going somewhere else is done once and told; going where one is does nothing"

                def f(js, api):
                    use(js, api, obj, "add", Big(5))
                    use(js, api, obj, act, new)
                    return True
                ps = offer(pg, f, kinds={new: STR})

                def good(p):
                    moves = [(e.kind, e.recv, e.name, [host(x) for x in e.args]) for e in p.new if e.kind == "set" or e.kind == "call" and e.name in ("pushState", "replaceState", "assign", "replace")]
                    same = [v for q, v in p.cond if q.op == "===" and set(q.a) == {read, new}]
                    if p.end != "ret" or len(same) != 1:
                        return False
                    if same[0]:
                        return not moves and not callbacks(p.new)
                    want = ("set", S("g", "location"), "hash", [new]) if obj == "hashRouter" else ("call", S("g", "history"), act + "State", [None, "", new])
                    done = [i for i, e in enumerate(p.new) if e.kind == want[0] and e.name == want[2]]
                    told = [i for i, e in enumerate(p.new) if e.kind == "callback"]
                    return len(moves) == 1 and moves[0][:3] == want[:3] and len(moves[0][3]) == len(want[3]) and all(same_host(a, b) for a, b in zip(moves[0][3], want[3])) and callbacks(p.new) == [(5, read)] and done[0] < told[0]
                one(r, f"{obj}.{act}", ps, good)
                one(r, f"{obj}.{act}: both ways", ps[:1], lambda p: len(ps) == 2)
        n += t.n
    cx.floor("uses of the page's functions followed", n, 60)


def swapped(t, a, b):
    return b if t is a else S(t.op, *[swapped(x, a, b) if isinstance(x, S) else x for x in t.a]) if isinstance(t, S) else t


def chance(x, lo, width):
    """lo + floor(random * width)"""
    r = add(x, lo, -1) if not isnum(x) else x
    if not (isinstance(r, S) and r.op == "m" and r.a[0] is S("g", "Math") and r.a[1] in ("floor", "trunc")):
        return False
    y = r.a[2]
    rnd = S("m", S("g", "Math"), "random")
    return y in (S("*", rnd, S("num", str(width))), S("*", S("num", str(width)), rnd)) or y is scaled(rnd, width)


def scaled(x, k):
    y = 0
    for _ in range(k):
        y = add(y, x)
    return y


@check("T05", ())
def t05(cx):
    n = 0
    for pg in pages(cx):
        cx.need(bridge(pg) is not None, f"{pg.name}: the function that calls back into the module")
        t = Table(cx, pg)
        one, url, body = t.one, S("p", "url"), S("p", "body")

        def send(b):
            return lambda js, api: use(js, api, "fetch", "fetch_send_request", Big(5), "PUT", url, jsv({"A": "b"}), jsv(b) if isinstance(b, dict) else b)
        bodies = {"text": (body, STR, "text/plain; charset=utf-8"), "bytes": (body, BYTES, "application/octet-stream"), "JSON": ({"k": 1}, None, "application/json; charset=utf-8"), "nothing": (UNDEF, None, None)}
        r = "the request goes out once, as it was asked for"
        for what, (b, k, ct) in bodies.items():
            for has in (True, False):
                def good(p):
                    f = calls(p.new, "fetch")
                    if p.end != "ret" or len(f) != 1 or f[0].args[0] is not url:
                        return False
                    o = f[0].args[1].props
                    h = o.get("headers")
                    made_ = [e for e in p.new if e.kind == "new" and e.name == "Headers"]
                    given_ = host(made_[0].args[0]) if made_ else None
                    put = [(e.recv, [host(x) for x in e.args]) for e in calls(p.new, "set", "append")]
                    sent = o.get("body", UNDEF)
                    if what == "JSON":
                        ok = isinstance(sent, S) and sent.op == "m" and sent.a[1] == "stringify" and len(sent.a) == 3 and sent.a[2] is term(jsv(b)) 
                    else:
                        ok = sent is b
                    return o.get("method") == "PUT" and len(made_) == 1 and given_ == {"A": "b"} and isinstance(h, S) and h is made_[0].res and ok \
                        and put == ([] if has or ct is None else [(h, ["content-type", ct])])
                one(r, f"{what}, {'with' if has else 'without'} a content type", offer(pg, send(b), kinds={body: k} if k else {}, answers={"has": has, "get": "text/plain"}), good)
        reply = S("await", S("res", "fetch"))
        r = "the answer comes once: what the server sent, under its kind"
        for ct, how in [("application/json", "json"), ("application/json; charset=utf-8", "json"), ("Application/JSON ;x", "json"), ("text/plain", "text"), ("text/plain;charset=utf-8", "text"), ("TEXT/PLAIN", "text"), ("image/png", "arrayBuffer"), ("text/html", "arrayBuffer"), ("", "arrayBuffer"), (None, "arrayBuffer")]:
            def good(p):
                f, c = calls(p.new, "fetch"), callbacks(p.new)
                g = calls(p.new, "json", "text", "arrayBuffer")
                asked = [[host(x).lower() for x in e.args] for e in calls(p.new, "get")]
                if p.end != "ret" or len(c) != 1 or len(f) != 1 or [e.name for e in g] != [how] or asked != [["content-type"]]:
                    return False
                answer = S("await", f[0].res)
                got = S("await", g[0].res)
                st = {"type": 1, "value": S("get", answer, "status")}
                v = c[0][1]
                w = {"type": 14, "value": got} if how == "json" else got
                if how == "arrayBuffer":
                    u = v[2]
                    if not (isinstance(u, S) and u.op == "bytes" and u.a[0] is got or isinstance(u, S) and u.op == "new" and u.a[0] == "Uint8Array" and got in u.a):
                        return False
                    w = u
                return c[0][0] == 5 and g[0].recv is answer and isinstance(v, list) and len(v) == 3 and same_host(v, [True, st, w])
            one(r, f"content type {ct!r}", offer(pg, send(UNDEF), answers={"has": False, "get": ct}), good)
            ps = offer(pg, send(body), kinds={body: STR}, answers={"has": False, "get": ct}, faults=re.compile("fetch|json|text|arrayBuffer|await|Headers"))
            hit = [p for p in ps if any(q.op == "fails" and v for q, v in p.cond)]

            def failed(p):
                c = callbacks(p.new)
                f = calls(p.new, "fetch")
                # a failure before there is an answer has status 0, one after it the answer's
                if p.end != "ret" or len(c) != 1 or c[0][0] != 5 or not isinstance(c[0][1], list) or len(c[0][1]) != 3 or c[0][1][0] is not False:
                    return False
                bad = [q.a[0] for q, v in p.cond if q.op == "fails" and v][0]
                early = bad in ("new Headers", "call:fetch", "await fetch") or not f
                st = c[0][1][1]
                text = c[0][1][2]
                return isinstance(st, dict) and st.get("type") == 1 and (st.get("value") == 0 if early else st.get("value") is S("get", S("await", f[0].res), "status")) and isinstance(text, S) and any(x.op == "error" for x in text.subs())
            one("a request that fails is answered once, as failed", f"content type {ct!r}", hit, failed)
            one("a request that fails is answered once, as failed", f"content type {ct!r}: the ways it can fail", hit[:1], lambda p: {q.a[0] for h in hit for q, v in h.cond if q.op == "fails" and v} >= {"call:fetch", "await fetch", "await " + how})
        n += t.n
    cx.floor("requests followed", n, 70)


@check("T06", ())
def t06(cx):
    n = 0
    for pg in pages(cx):
        cx.need(bridge(pg) is not None, f"{pg.name}: the function that calls back into the module")
        t = Table(cx, pg)
        one = t.one

        class Script:
            """events of a connection, in the order given; each under its own mark"""
            def __init__(self, js, api):
                self.js, self.api, self.k = js, api, 0
                js.co = True

            def go(self, what, f):
                self.k += 1
                mark(self.js, f"{self.k} {what}")
                f()
                self.js.drain()

            def sockets(self):
                return [e.res for e in self.js.events if e.kind == "new" and e.name == "WebSocket"]

            def step(self, what):
                js, api = self.js, self.api
                op, _, arg = what.partition(" ")
                i, _, arg = arg.partition(" ")
                if op in ("register", "unregister"):
                    a = [Big(int(i))]
                    self.go(what, lambda: use(js, api, "websocket", f"websocket_{op}_callback", *([S("p", "host" + i)] + a if op == "register" else a)))
                elif op == "send":
                    self.go(what, lambda: use(js, api, "websocket", "websocket_send_message", Big(int(i)), arg))
                elif op in ("open", "close", "error", "message"):
                    s = self.sockets()[int(i)]
                    ev = jsv({"data": {"number": 7, "": "hello"}.get(arg, arg)})
                    self.go(what, lambda: js.call(listener(js, op, s), [ev]))
                elif op == "timer":      # the last timer of so many milliseconds
                    e = [e for e in js.events if e.kind == "call" and e.name == "setTimeout" and e.args[1] == int(i)][-1]
                    self.go(what, lambda: js.call(e.args[0], []))
                elif op == "timer1":     # the first one
                    e = [e for e in js.events[js.mark:] if e.kind == "call" and e.name == "setTimeout" and e.args[1] == int(i)][0]
                    self.go(what, lambda: js.call(e.args[0], []))
                else:
                    raise KeyError(what)

        def story(rule, steps):
            """steps: (what happens, what the page does then)"""
            def f(js, api):
                s = Script(js, api)
                for what, _ in steps:
                    try:
                        s.step(what)
                    except (IndexError, KeyError):
                        js.short = what
                        return False
                js.all = s.sockets()
                return True

            def does(p, evs):
                out = []
                for e in evs:
                    if e.kind == "callback":
                        out.append(f"tell {e.name} {host(e.args[0])!r}")
                    elif e.kind == "new" and e.name == "WebSocket":
                        out.append(f"connect {e.args[0].a[0] if isinstance(e.args[0], S) else e.args[0]}")
                    elif e.kind == "call" and e.name == "setTimeout":
                        out.append(f"wait {unterm(e.args[1])}")
                    elif e.kind == "call" and e.name in ("close", "send") and e.recv in p.js.all:
                        out.append(f"{e.name} {p.js.all.index(e.recv)}" + "".join(f" {unterm(x)}" for x in e.args if e.name == "send"))
                return out

            def good(p):
                if p.end != "ret" or p.ret is not True:
                    return False
                for i, (what, want) in enumerate(steps):
                    got = does(p, p.at[f"{i + 1} {what}"])
                    got = [x for x in got if not (x.startswith("close ") and f"?{x}" in want)]
                    if sorted(got) != sorted(x for x in want if not x.startswith("?")) or [x for x in got if x.startswith("tell")] != [x for x in want if x.startswith("tell")]:
                        p.js.branches.append((S("s", f"after {what}: expected {want}, got {got}"), True))
                        return False
                return True
            one(rule, ", ".join(w for w, _ in steps), offer(pg, f), good)
        start = ("register 5", ["connect host5", "wait 5000"])
        opened = ("open 0", ["tell 5 True"])
        story("opening, messages and closing are told", [start, opened, ("message 0", ["tell 5 'hello'"]), ("message 0 again", ["tell 5 'again'"]), ("close 0", ["tell 5 False", "wait 3000", "?close 0"])])
        story("opening, messages and closing are told", [start, opened, ("message 0 number", []), ("message 0", ["tell 5 'hello'"])])
        story("opening, messages and closing are told", [start, opened, ("error 0", ["tell 5 False", "wait 3000", "close 0"]), ("close 0", []), ("message 0", [])])
        story("a connection that does not open is given up", [start, ("timer 5000", ["close 0", "wait 3000"]), ("close 0", []), ("open 0", []), ("timer 3000", ["connect host5", "wait 5000"])])
        story("a connection that does not open is given up", [start, opened, ("timer 5000", []), ("message 0", ["tell 5 'hello'"])])
        story("a connection that was lost is made again", [start, ("error 0", ["close 0", "wait 3000"]), ("timer 3000", ["connect host5", "wait 5000"]), ("open 1", ["tell 5 True"]), ("message 1", ["tell 5 'hello'"]), ("send 5 out", ["send 1 out"])])
        story("a connection that was lost is made again", [start, opened, ("close 0", ["tell 5 False", "wait 3000", "?close 0"]), ("timer 3000", ["connect host5", "wait 5000"]), ("open 1", ["tell 5 True"]), ("message 0", []), ("message 1", ["tell 5 'hello'"])])
        story("what is sent goes to the connection, while there is one", [start, ("send 5 early", []), opened, ("send 5 out", ["send 0 out"]), ("close 0", ["tell 5 False", "wait 3000", "?close 0"]), ("send 5 late", [])])
        story("what is sent goes to the connection, while there is one", [start, opened, ("register 6", ["connect host6", "wait 5000"]), ("open 1", ["tell 6 True"]), ("send 6 out", ["send 1 out"]), ("send 5 out", ["send 0 out"]), ("message 1", ["tell 6 'hello'"]), ("close 1", ["tell 6 False", "wait 3000", "?close 1"]), ("send 5 more", ["send 0 more"])])
        quiet = "who left is told nothing, and the connection is closed"
        story(quiet, [start, opened, ("unregister 5", ["close 0"]), ("close 0", []), ("message 0", [])])
        story(quiet, [start, ("unregister 5", ["?close 0"]), ("error 0", ["?close 0", "wait 3000"]), ("timer 3000", [])])
        story(quiet, [start, ("error 0", ["close 0", "wait 3000"]), ("unregister 5", []), ("timer 3000", [])])
        story(quiet, [start, opened, ("close 0", ["tell 5 False", "wait 3000", "?close 0"]), ("unregister 5", []), ("timer 3000", [])])
        story(quiet, [start, opened, ("register 6", ["connect host6", "wait 5000"]), ("open 1", ["tell 6 True"]), ("unregister 5", ["close 0"]), ("message 1", ["tell 6 'hello'"])])
        story(quiet, [("unregister 5", [])])

        def leaves(rule, steps, which):
            """in the end this connection has been closed, and nobody told"""
            def f(js, api):
                s = Script(js, api)
                for what in steps:
                    s.step(what)
                js.all = s.sockets()
                mark(js, "end")
                return True
            one(rule, ", ".join(steps), offer(pg, f), lambda p: p.end == "ret" and p.ret is True and [e for e in calls(p.new, "close") if e.recv is p.js.all[which]] and not [1 for k, v in p.at.items() if k.split(" ")[0].isdigit() and int(k.split(" ")[0]) > [i for i, s in enumerate(steps, 1) if s.startswith("unregister")][0] and callbacks(v)])
        leaves(quiet, ["register 5", "unregister 5", "open 0"], 0)
        leaves(quiet, ["register 5", "open 0", "close 0", "timer 3000", "unregister 5", "open 1"], 1)
        n += t.n
    cx.floor("connections followed", n, 30)


@check("T07", ())
def t07(cx):
    n = 0
    with open(os.path.join(REPO, "crates/vertigo/Cargo.toml")) as fh:
        ver = re.search(r'^version\s*=\s*"(\d+)\.(\d+)\.', fh.read(), re.M)
    cx.need(ver, "the version of the vertigo crate")
    ver = [int(ver.group(1)), int(ver.group(2))]
    N = [S("p", f"node{i}") for i in range(3)]
    for pg in pages(cx):
        t = Table(cx, pg)
        one = t.one

        def start(attrs, faults=None, twice=True, values=None):
            def f(js):
                js.answers = {"querySelectorAll": Arr(N[:len(attrs)])}
                js.values.update({(N[i], "getAttribute", "()"): v for i, v in enumerate(attrs)})
                js.values.update(values or {})
                js.faults = faults
                js.run_program()
                js.loaded = None
                mark(js, "load")
                js.call(listener(js, "load", WINDOW), [S("p", "event")])
                mark(js, "timer")
                if twice:
                    js.call([e for e in js.events if e.kind == "call" and e.name == "setTimeout" and e.args[1] == 3000][0].args[0], [])
                return True
            ps = explore(pg.prog, f)
            cx.cov["paths"] += len(ps)
            for p in ps:
                p.at = marked(p.events)
            return ps
        r = "the module named in the page is fetched and started once, when the page is loaded"

        def entries(evs):
            return [[host(x) for x in e.args] for e in calls(evs, "vertigo_entry_function")]

        def fetched(evs):
            return [host(e.args[0]) for e in calls(evs, "fetch")]

        def looked(p):
            return all([host(x) for x in e.args] == ["*[data-vertigo-run-wasm]"] and e.recv is DOCUMENT for e in calls(p.events, "querySelectorAll")) and all([host(x) for x in e.args] == ["data-vertigo-run-wasm"] for e in calls(p.events, "getAttribute"))
        for what, attrs, want in [("one module", ["a.wasm"], ["a.wasm"]), ("the same module twice", ["a.wasm", "a.wasm"], ["a.wasm"]), ("two modules", ["a.wasm", "b.wasm"], ["a.wasm"]), ("no module", [], []), ("an element without a name", [None, "a.wasm"], ["a.wasm"])]:
            one(r, what, start(attrs), lambda p: p.end == "ret" and looked(p) and fetched(p.at["load"]) == want and not calls(p.at.get("", []), "fetch", "vertigo_entry_function") and entries(p.at["load"]) == [ver] * len(want) and not entries(p.at["timer"]) and not calls(p.at["timer"], "fetch", "instantiate", "instantiateStreaming"))

        def late(p):
            return p.end == "ret" and fetched(p.at["late"]) == ["a.wasm"] and entries(p.at["late"]) == [ver]

        def f(js):
            js.values.update({(N[0], "getAttribute", "()"): "a.wasm"})
            js.answers = {"querySelectorAll": Arr([N[0]])}
            js.run_program()
            mark(js, "late")
            js.call([e for e in js.events if e.kind == "call" and e.name == "setTimeout" and e.args[1] == 3000][0].args[0], [])
            return True
        ps = explore(pg.prog, f)
        for p in ps:
            p.at = marked(p.events)
        one(r, "only the timer fires", ps, late)

        def functions(e):
            i = e.args[1] if len(e.args) > 1 else None
            m = i.props.get("mod") if isinstance(i, Obj) else None
            return isinstance(m, Obj) and set(m.props) == {"panic_message", "dom_access"}

        def source(p):
            """the module comes from what was fetched"""
            i = calls(p.events, "instantiate", "instantiateStreaming")
            f = calls(p.events, "fetch")
            if not all(functions(e) for e in i) or len(calls(p.events, "vertigo_entry_function")) != 1:
                return False
            last = i[-1]
            ent = calls(p.events, "vertigo_entry_function")[0]
            if last.name == "instantiateStreaming":
                ok = last.args[0] is f[-1].res
            else:
                b = calls(p.events, "arrayBuffer")
                ok = len(b) == 1 and b[0].recv is S("await", f[-1].res) and last.args[0] is S("await", b[0].res)
            return ok and S("await", last.res) in list(ent.recv.subs())
        ps = start(["a.wasm"], faults=re.compile("^(call:|await )instantiateStreaming$"), twice=False)
        one("a module that cannot be streamed is fetched whole", "each way", ps, lambda p: p.end == "ret" and source(p))
        one("a module that cannot be streamed is fetched whole", "all ways are there", ps[:1], lambda p: sum(1 for x in ps if calls(x.events, "instantiate")) >= 2 and any(not calls(x.events, "instantiate") for x in ps))

        # panics
        def f(js, mod, api):
            js.mark = len(js.events)
            js.says = []
            return js.call(mod["panic_message"], [PTR, SIZE])
        r = "the module's panics are shown, its answers read and freed"
        one(r, "panic_message", pg.run(f), lambda p: p.end == "ret" and any(x.op == "m" and x.a[1] == "subarray" and plain(x.a[2]) is PTR and plain(x.a[3]) is add(PTR, SIZE) for e in p.events[p.js.mark:] for a in e.args if isinstance(a, S) for x in a.subs()))

        # the answer of a callback
        def back(v, **kw):
            def f(js, mod, api):
                cb = pg.callback(js, api)
                m = len(js.events)
                js.mark = m
                return js.call(cb, [Big(9), kw.pop("arg", UNDEF)])
            ps = pg.run(f, answers={"wasm_callback": Big(v)}, values=kw.pop("values", {}))
            cx.cov["paths"] += len(ps)
            for p in ps:
                p.new = p.events[p.js.mark:]
            return ps

        def passed(p):
            c = calls(p.new, "wasm_callback")
            return len(c) == 1 and c[0].args[0] == Big(9)
        one(r, "no answer", back(0), lambda p: p.end == "ret" and p.ret is UNDEF and passed(p) and not calls(p.new, "free"))
        for ptr, size in ((0x1234, 0x10), (0x10, 0x7fffffff), (0x7ffffff0, 9)):
            for tag, want in ((6, True), (2, S("rd", "Int32", S("num", str(ptr + 1))))):
                def good(p):
                    fr = [(i, e) for i, e in enumerate(p.new) if e.kind == "call" and e.name == "free"]
                    got = [i for i, e in enumerate(p.new) if e.kind == "call" and isinstance(e.recv, S) and e.recv.op == "new" and e.recv.a[0] == "DataView" and e.name.startswith("get")]
                    views = {tuple(plain(x) for x in e.recv.a[3:]) for e in p.new if e.kind == "call" and isinstance(e.recv, S) and e.recv.op == "new" and e.recv.a[0] == "DataView" and e.name.startswith("get")}
                    old = [e for e in p.new if e.kind == "call" and isinstance(e.recv, S) and e.recv.op == "new" and e.recv.a[0] == "DataView" and e.name.startswith("get") and not fresh(e.recv.a[2], e.epoch)]
                    val = host(p.ret)
                    val = val.get("value") if isinstance(val, dict) else val
                    return p.end == "ret" and same_host(val, want) and passed(p) and len(fr) == 1 and [host(x) for x in fr[0][1].args] == [ptr] and got and max(got) < fr[0][0] and views == {(ptr, size)} and not old
                one(r, f"answer at {ptr:#x} of {size:#x}, kind {tag}", back((ptr << 32) | size, values={S("rd", "Uint8", S("num", str(ptr))): tag}), good)
        n += t.n
    cx.floor("starts and answers followed", n, 25)
