"""From the text of a style to its rules: the row splitter as a transition system, brackets, declarations, media queries."""
from ..core import check
from ..q import *
from ..term import T, show
from .reactive import opq, anyb

TC = "vertigo::css::transform_css::"
START, IDX = T("START"), T("IDX")


def plain(t):
    while t.op in ("str",) or t.op == "call" and t.a[0].rsplit("::", 1)[-1] in ("trim", "to_string", "to_owned", "as_str", "into", "trim_start", "trim_end") and len(t.a) == 3:
        t = t.a[-1]
    return t


def text(t):
    """pieces of a text, constants joined"""
    out = []

    def add(x):
        if isinstance(x, str):
            if out and isinstance(out[-1], str):
                out[-1] += x
            elif x:
                out.append(x)
        else:
            out.append(x)

    def go(t):
        if isinstance(t, str):
            return add(t)
        t = plain(t)
        if t.op == "c" and isinstance(t.a[0], str):
            add(t.a[0])
        elif t.op == "c" and isinstance(t.a[0], int):
            add(chr(t.a[0]))
        elif t.op == "fmt":
            for x in t.a:
                go(x)
        elif t.op == "disp":
            go(t.a[-1])
        elif t.op == "call" and t.a[0].endswith("::concat") and t.a[2].op == "agg":
            for x in t.a[2].a[3:]:
                go(x)
        elif t.op == "call" and t.a[0].endswith("::join") and t.a[2].op == "agg":
            for i, x in enumerate(t.a[2].a[3:]):
                if i:
                    go(t.a[3])
                go(x)
        elif t.op == "call" and t.a[0].endswith("Add>::add"):
            go(t.a[2])
            go(t.a[3])
        else:
            add(t)
    go(t)
    return out


def same(a, b):
    """two lists of pieces, blanks aside"""
    n = lambda l: [y for y in (("".join(x.split()) if isinstance(x, str) else x) for x in l) if y != ""]
    a, b = n(a), n(b)
    return len(a) == len(b) and all(x is y or isinstance(x, str) and x == y for x, y in zip(a, b))


# ---- the row splitter

class Machine:
    """the loop over the characters of a text as a transition system: a state is what the loop carries"""

    def __init__(self, cx, f, src):
        self.cx, self.cr = cx, cx.crate()
        self.steps, self.ends, self.init, self.bad = [], [], {}, []
        chars, starts, self.out = set(), set(), set()
        self.consts = {ord(c) for c in "{};:.@[ x"} | {0x17c, 0x1f600}
        self.ret = []
        for p in cx.run(f, [r"::(push|insert|pop|clear|truncate|push_str|drain|remove)$"], branches=anyb, carries=True, panics=True, once=True):
            ks = [i for i, e in enumerate(p.trace) if e.kind == "br" and e.args[0].op == "discr" and e.args[0].a[0].op == "next" and e.args[0].has(src)]
            if not ks:
                self.bad.append("no loop over the text on " + desc(p))
                continue
            for e in p.trace[:ks[0]]:
                if e.kind == "init":
                    self.init[e.args[0]] = e.args[1]
                elif e.kind in ("br", "call"):
                    self.bad.append("something before the loop: " + desc(p))
            if p.end == "ret":
                self.ret.append(p.ret)
            if p.trace[ks[0]].args[1] == "None":
                self.ends.append((p, p.trace[ks[0] + 1:]))
                continue
            it = T("item", p.trace[ks[0]].args[0].a[0].a[0])
            dom = it.a[0]
            if dom.op == "call" and dom.a[0].endswith("char_indices") or dom.op == "enum" and dom.a[0].op == "call" and dom.a[0].a[0].endswith("::bytes"):
                self.i, self.c = (T("f", it, "0"), T("f", it, "1"))
                if dom.op == "enum":
                    self.i, self.c = T("index", dom), T("item", dom.a[0])
                chars.add((self.i, self.c))
            else:
                self.bad.append("the text is not visited by byte positions: " + show(dom)[:80])
                continue
            to = ks[1] if len(ks) > 1 else len(p.trace)
            # what is carried to the next turn is recorded before the next advance
            self.steps.append((p, p.trace[ks[0] + 1:to], p.end == "again"))
            for e in p.trace[ks[0] + 1:to]:
                for a in e.args:
                    if isinstance(a, T):
                        for x in a.subs():
                            if x.op == "bin" and self.c in x.a:
                                self.consts |= {y.a[0] for y in x.a[1:] if y.op == "c" and isinstance(y.a[0], int)}
                if e.kind == "br" and e.args[0] is self.c:
                    self.consts |= {e.args[1]} if isinstance(e.args[1], int) else {int(x) for x in e.args[1] if str(x).isdigit()}
        for p, ev_, *_ in self.steps + self.ends:
            for e in ev_:
                if e.kind == "call" and e.name.endswith("push"):
                    self.out.add(e.args[0])
                    r = self.range(e.args[1])
                    if r is not None and r[0].op == "loop":
                        starts.add(r[0])
        self.start = starts.pop() if len(starts) == 1 else None
        if self.start is None:
            self.bad.append("no single start of the current row")
        if len(chars) > 1:
            self.bad.append("several loops over the text")

    def range(self, t):
        """(start, end) of a piece of the text"""
        t = plain(t)
        if t.op == "call" and ("Index" in t.a[0] or t.a[0].endswith("::get") or t.a[0].endswith("get_unchecked")) and t.a[3].op == "agg":
            r = t.a[3]
            if r.a[1] in ("Range", None) and tuple(r.a[2]) == ("start", "end") or r.a[0].endswith("ops::Range"):
                return r.a[3], r.a[4]
            if r.a[0].endswith("RangeFrom"):
                return r.a[3], None
        return None

    def val(self, t, env):
        if t in env:
            return env[t]
        if t.op == "c":
            return t
        if t.op in ("cast", "ovf"):
            return self.val(t.a[0], env)
        if t.op == "not":
            v = self.val(t.a[0], env)
            return T("c", 1 - v.a[0]) if v.op == "c" and v.a[0] in (0, 1) else T("?")
        if t.op == "agg":
            return T("agg", *t.a[:3], *[self.val(x, env) for x in t.a[3:]])
        if t.op == "with":
            b = self.val(t.a[0], env)
            if b.op == "agg" and t.a[1] in b.a[2]:
                k = b.a[2].index(t.a[1])
                return T("agg", *b.a[:3], *[self.val(t.a[2], env) if j == k else x for j, x in enumerate(b.a[3:])])
            return T("?")
        if t.op in ("vf", "f"):
            b = self.val(t.a[0], env)
            fld = t.a[-1]
            if b.op == "agg" and fld in b.a[2]:
                return b.a[3 + b.a[2].index(fld)]
            return T("?")
        if t.op == "discr":
            b = self.val(t.a[0], env)
            return T("variant", t.a[1], b.a[1]) if b.op == "agg" else T("?")
        if t.op == "isvar":
            b = self.val(t.a[0], env)
            return T("c", int(b.a[1] in t.a[1:])) if b.op == "agg" else T("?")
        if t.op == "bin":
            a, b = self.val(t.a[1], env), self.val(t.a[2], env)
            if t.a[0] == "Eq":
                if a.op == "variant" or b.op == "variant":
                    a, b = (a, b) if a.op == "variant" else (b, a)
                    if b.op == "variant":
                        return T("c", int(a.a[1] == b.a[1]))
                    k = self.vidx(a.a[0], a.a[1])
                    return T("c", int(k == b.a[0])) if b.op == "c" and k is not None else T("?")
                if a is b and a.op != "?":
                    return T("c", 1)
                if a.op == "agg" and b.op == "agg" and not any(x.op not in ("c", "agg") for y in (a, b) for x in y.a[3:]):
                    return T("c", 0)
                # a row with nothing in it may be left out
                if any(empty_str(x) for x in (a, b)):
                    return T("c", 0)
            if a.op == "c" and b.op == "c":
                v = ev(T("bin", t.a[0], a, b), {})
                return T("c", v) if v is not None else T("?")
            if t.a[0] == "Add" and IDX in (a, b):
                return T("bin", "Add", IDX, b if a is IDX else a)
            return T("?")
        if t.op == "call" and t.a[0].endswith("::len_utf8"):
            v = self.val(t.a[2], env)
            return T("c", len(chr(v.a[0]).encode())) if v.op == "c" else T("?")
        if t.op == "call" and t.a[0].endswith("is_empty") and self.range(t.a[2]) is not None:
            return T("c", 0)
        return T("?")

    def vidx(self, adt, variant):
        return self.cr.adt_discr(adt, variant)

    def ok(self, e, env):
        """can this branch be taken"""
        v = self.val(e.args[0], env)
        w = e.args[1]
        if v.op == "?":
            return True
        if v.op == "variant":
            if isinstance(w, int):
                k = self.vidx(v.a[0], v.a[1])
                return k is None or (k == w)
            return v.a[1] == w if e.name == "=" else v.a[1] not in w
        if v.op == "c":
            return v.a[0] == w if e.name == "=" else str(v.a[0]) not in [str(x) for x in w]
        return True

    def moves(self, state, ch):
        """(panics?, rows pushed, next state) for one character"""
        env = dict(state)
        env[self.i], env[self.c] = IDX, T("c", ch)
        out = set()
        for p, evs, complete in self.steps:
            if not all(self.ok(e, env) for e in evs if e.kind == "br"):
                continue
            if not complete:
                out.add(("panic" if p.end == "panic" else "leaves", (), state, None))
                continue
            rows, nxt, st, o = [], dict(state), START, ""
            for e in evs:
                if e.kind == "call":
                    r = self.range(e.args[1]) if e.name.endswith("push") and len(e.args) > 1 else None
                    rows.append((self.val(r[0], env), self.val(r[1], env) if r[1] is not None else None) if r else ("?", show(e.args[0])))
                elif e.kind == "carry" and e.args[0] in self.init:
                    v = self.val(e.args[1], env)
                    if e.args[0] is self.start:
                        st = v
                    else:
                        nxt[e.args[0]] = v
            out.add(("go", tuple(rows), tuple(sorted(nxt.items(), key=lambda x: str(x[0]))), st))
        return out


def nonempty(t):
    """true exactly for a text that is not empty (when trimmed)"""
    if t.op != "not":
        return False
    t = t.a[0]
    if t.op == "call" and t.a[0].endswith("is_empty"):
        return plain(t.a[2]).op in ("item", "param")
    return t.op == "bin" and t.a[0] == "Eq" and any(empty_str(x) for x in t.a[1:]) and any(plain(x).op in ("item", "param") for x in t.a[1:])


def rows(cx):
    f = cx.fn(TC + "splits::css_split_rows")
    m = Machine(cx, f, T("param", "css"))
    cx.ob("rows-split-by-one-loop-over-byte-positions", f["p"], not m.bad, "; ".join(sorted(set(m.bad))[:3]))
    if m.bad:
        return
    cx.ob("first-row-starts-at-the-beginning", f["p"], ev(m.init.get(m.start, T("?")), {}) == 0, show(m.init.get(m.start, T("?"))))
    o = next(iter(m.out), None)
    for r in set(m.ret):
        while r.op == "call" and r.a[0].endswith("Iterator::filter"):
            for c in clos(r.a[3]):
                for p in cx.run(cx.crate().insts[c.a[1]], [], branches=anyb):
                    cx.ob("only-empty-rows-are-left-out", f["p"], nonempty(p.ret), show(p.ret))
            r = r.a[2]
        cx.ob("rows-are-what-is-returned", f["p"], len(m.out) == 1 and r.has(o), show(r))
    s0 = dict(m.init)
    s0.pop(m.start)
    s0[m.start] = START
    s0 = tuple(sorted(((k, m.val(v, {}) if v is not START else v) for k, v in s0.items()), key=lambda x: str(x[0])))
    todo, seen, edges = [(s0, False, 0, "")], set(), 0
    while todo:
        s, sep, depth, word = todo.pop(0)
        if (s, sep, depth) in seen or len(word) > 14:
            continue
        seen.add((s, sep, depth))
        for ch in sorted(m.consts):
            c = chr(ch)
            if c == "}" and depth == 0 or c == ";" and depth == 0 and not sep or c == "{" and depth == 3:
                continue        # not balanced, not a row, or deeper than looked at
            edges += 1
            mv = m.moves(s, ch)
            where = f"after {word!r} comes {c!r}"
            cut = c == ";" and depth == 0
            ok = len(mv) == 1
            for k, pushed, nxt, st in mv:
                ok = ok and k == "go"
                if cut:
                    ok = ok and pushed == ((START, IDX),) and st is T("bin", "Add", IDX, T("c", 1))
                else:
                    ok = ok and not pushed and st is START
            cx.ob("row-ends-exactly-at-a-semicolon-outside-braces", f["p"], ok, where + ": " + "; ".join(f"{k} rows={len(r)}" for k, r, _, _ in sorted(mv, key=str))[:120])
            if not ok:
                return
            nxt = next(iter(mv))[2]
            d2 = depth + (c == "{") - (c == "}")
            todo.append((nxt, False if cut else sep or c == ":" and depth == 0 or c == "}" and d2 == 0, d2, word + c))
        # the text may end here
        env = dict(s)
        fin = [x for x in m.ends if all(m.ok(e, env) for e in x[1] if e.kind == "br")]
        good = bool(fin)
        for p, evs in fin:
            r = [m.range(e.args[1]) for e in evs if e.kind == "call" and e.name.endswith("push")]
            good = good and p.end == "ret" and len(r) == 1 and r[0] is not None and r[0][0] is m.start and (r[0][1] is None or r[0][1].op == "call" and r[0][1].a[0].endswith("::len"))
        cx.ob("last-row-reaches-to-the-end", f["p"], good, f"text ends after {word!r}")
    cx.floor("states of the row splitter", len(seen), 5)
    cx.floor("moves of the row splitter", edges, 40)


def brackets(cx):
    f = cx.fn(TC + "splits::find_brackets")
    L = T("param", "line")
    n = 0

    def pos(t, char, last):
        """the byte position of the first / last such character"""
        t0 = t
        if t.op == "vf" and t.a[1:] == ("Some", "0"):
            t = t.a[0]
        if t.op == "call" and t.a[0].endswith("::rfind" if last else "::find") and t.a[2] is L and t.a[3] is T("c", ord(char)):
            return True
        if t0.op == "f" and t0.a[1] == "0" and t0.a[0].op == "item":
            d = t0.a[0].a[0]
            d = d.a[0] if d.op == "rev" and last else d if not last else T("?")
            return d.op == "call" and d.a[0].endswith("char_indices") and d.a[2] is L and any(e.args[0] in (T("bin", "Eq", T("f", t0.a[0], "1"), T("c", ord(char))), T("bin", "Eq", T("c", ord(char)), T("f", t0.a[0], "1"))) and e.args[1] == 1 for e in brs(p))
        return False

    for p in cx.run(f, [], branches=anyb):
        if not agg_of(p.ret, "Option"):
            cx.ob("brackets-answer-known", f["p"], False, show(p.ret))
            continue
        if p.ret.a[1] == "None":
            miss = [show(x) for x, v, h in variants_on(p, "Option") if v == "None"]
            cx.ob("no-brackets-only-when-one-is-missing", f["p"], any(v in x for x in miss for v in ("123", "125", "next(")), desc(p))
            continue
        n += 1
        a, b, c = [plain(x) for x in p.ret.a[3].a[3:]]
        ok = False
        once = T("?")
        if all(x.op == "call" and "Index" in x.a[0] and x.a[2] is L and x.a[3].op == "agg" for x in (a, b, c)):
            one = lambda t: t.op == "bin" and t.a[0] == "Add" and T("c", 1) in t.a and next(x for x in t.a[1:] if x is not T("c", 1))
            lo, mid, hi = a.a[3], b.a[3], c.a[3]
            fld = lambda r, k: r.a[3 + r.a[2].index(k)] if k in r.a[2] else None
            s, e = fld(lo, "end"), fld(mid, "end")
            ok = s is not None and e is not None and "Inclusive" not in lo.a[0] + mid.a[0] + hi.a[0] and (fld(lo, "start") is None or ev(fld(lo, "start"), {}) == 0)
            ok = ok and pos(s, "{", False) and pos(e, "}", True) and fld(mid, "start") is not None and one(fld(mid, "start")) is s and fld(hi, "start") is not None and one(fld(hi, "start")) is e
        else:
            so = [x for x in a.subs() if x.op == "call" and x.a[0].endswith("::split_once") and x.a[2] is L and x.a[3] is T("c", 123)]
            if so:
                w = T("vf", so[0], "Some", "0")
                rs = [x for x in b.subs() if x.op == "call" and x.a[0].endswith("::rsplit_once") and x.a[2] is T("f", w, "1") and x.a[3] is T("c", 125)]
                v = T("vf", rs[0], "Some", "0") if rs else T("?")
                ok = a is T("f", w, "0") and b is T("f", v, "0") and c is T("f", v, "1")
        cx.ob("block-cut-at-byte-positions-of-its-braces", f["p"], ok, show(p.ret)[:260])
    cx.floor("bracket answers", n, 1)


def declarations(cx):
    f = cx.fn(TC + "splits::css_row_split_to_pair")
    R = T("param", "row")
    n = 0
    for p in cx.run(f, [], branches=anyb):
        if not agg_of(p.ret, "Option", "Some"):
            continue
        n += 1
        a, b = [plain(x) for x in p.ret.a[3].a[3:]]
        ok = False
        sp = lambda t: t.op == "call" and t.a[0].endswith("::split") and t.a[2] is R and t.a[3] is T("c", 58)
        if a.op == "f" and b.op == "f":
            ok = a.a[0] is b.a[0] and (a.a[1], b.a[1]) == ("0", "1") and a.a[0].op == "vf" and a.a[0].a[0].op == "call" and a.a[0].a[0].a[0].endswith("::split_once") and a.a[0].a[0].a[2] is R and a.a[0].a[0].a[3] is T("c", 58)
        elif a.op == "call" and "Index" in a.a[0] and b.op == "call" and b.a[0].endswith("::join"):
            ok = sp(a.a[2]) and ev(a.a[3], {}) == 0 and b.a[2].op == "call" and "Index" in b.a[2].a[0] and b.a[2].a[2] is a.a[2] and b.a[2].a[3].a[0].endswith("RangeFrom") and ev(b.a[2].a[3].a[3], {}) == 1 and text(b.a[3]) == [":"]
        elif a.op == "call" and "Index" in a.a[0] and b.op == "call" and "Index" in b.a[0]:
            e, s = a.a[3].a[-1], b.a[3].a[3] if len(b.a[3].a) > 3 else None
            ok = a.a[2] is R and b.a[2] is R and isinstance(e, T) and "find" in show(e) and "58" in show(e) and s is T("bin", "Add", e, T("c", 1))
        cx.ob("declaration-is-cut-at-its-first-colon", f["p"], ok, show(p.ret)[:240])
    cx.floor("declarations", n, 1)


def first_chars(p, it):
    """which kinds of row this path can be taken by"""
    out = set()
    for name, sample in (("pseudo", ":hover {"), ("ref", "[a] {"), ("media", "@media x {"), ("plain", "color: red")):
        ok = True
        for e in brs(p):
            t = e.args[0]
            if t.op == "call" and t.a[0].endswith("::starts_with") and t.a[2] is it:
                pats = [text(x) for x in (t.a[3].a[3:] if t.a[3].op == "agg" else [t.a[3]])]
                if all(len(x) == 1 and isinstance(x[0], str) for x in pats):
                    ok = ok and any(sample.startswith(x[0]) for x in pats) == (e.args[1] == 1)
        if ok:
            out.add(name)
    return out


def visited(p, has):
    return [T("item", e.args[0].a[0].a[0]) for e in brs(p) if e.args[0].op == "discr" and e.args[0].a[0].op == "next" and e.args[1] == "Some" and e.args[0].has(has)]


@check("D13")
def d13(cx):
    rows(cx)
    brackets(cx)
    declarations(cx)
    fb = r"find_brackets$"
    # a block under a selector
    f = cx.fn(TC + "transform_css_selector_value")
    for p in cx.run(f, [fb], opaque=opq(fb), branches=anyb):
        g = calls(p, fb)
        hit = next((v for x, v, h in variants_on(p, "Option") if g and x is g[0].res), None)
        if hit != "Some":
            cx.ob("no-rule-only-without-a-block", f["p"], agg_of(p.ret, "Option", "None") and hit == "None", desc(p))
            continue
        b = T("vf", g[0].res, "Some", "0")
        ok = agg_of(p.ret, "Option", "Some") and p.ret.a[3].op == "agg" and g[0].args[0] is T("param", "row")
        sel, body = p.ret.a[3].a[3:] if ok else (None, None)
        got = text(sel) if ok else []
        cx.ob("pseudo-selector-appended-to-the-class", f["p"], ok and got == [T("param", "parent_selector"), T("f", b, "0")] and text(body) == [T("f", b, "1")], show(p.ret)[:200])
    # an animation
    f = cx.fn(TC + "transform_css_animation_value")
    for p in cx.run(f, [fb, "get_next_id$"], opaque=opq(fb + "|get_next_id$"), branches=anyb):
        g, nid = calls(p, fb), calls(p, "get_next_id$")
        hit = next((v for x, v, h in variants_on(p, "Option") if g and x is g[0].res), None)
        val, key = p.ret.a[3:5] if p.ret.op == "agg" else (None, None)
        if hit != "Some":
            cx.ob("animation-without-block-is-kept", f["p"], hit == "None" and text(val) == [T("param", "css")] and agg_of(key, "Option", "None") and not nid, desc(p))
            continue
        b = T("vf", g[0].res, "Some", "0")
        ok = len(nid) == 1 and agg_of(key, "Option", "Some") and key.a[3].op == "agg"
        name = ["autocss_", nid[0].res] if nid else []
        v = text(val)
        blanks = all(isinstance(x, T) or x != x.lstrip() or i == 0 for i, x in enumerate(v)) and any(isinstance(x, str) and x[-1:].isspace() for x in v)
        ok = ok and same(v, [T("f", b, "0"), "autocss_", nid[0].res, T("f", b, "2")]) and blanks
        ok = ok and text(key.a[3].a[3]) == ["@keyframes autocss_", nid[0].res] and text(key.a[3].a[4]) == [T("f", b, "1")]
        cx.ob("keyframes-named-and-used-under-that-name", f["p"], ok, show(p.ret)[:240])
    # each row of a style
    f = cx.fn(TC + "transform_css")
    kinds = set()
    OP = r"transform_css_(media_query|selector_value|animation_value)$|css_row_split_to_pair$|css_split_rows$|get_next_id$"
    for p in cx.run(f, [OP, "::push$", "::insert$"], opaque=opq(OP), branches=anyb):
        if p.end != "ret":
            continue
        sp = calls(p, "css_split_rows$")
        cx.ob("rows-of-the-whole-text", f["p"], len(sp) == 1 and sp[0].args[0] is T("param", "css"), desc(p))
        vis = visited(p, sp[0].res) if sp else []
        if len(vis) != 1:
            continue
        it = vis[0]
        can = first_chars(p, it)
        sv, mq, an, pr = calls(p, "selector_value$"), calls(p, "media_query$"), calls(p, "animation_value$"), calls(p, "split_to_pair$")
        mine = [x for x in sv + mq + pr if x.args[0] is it]
        want = {"pseudo": "selector_value", "ref": "selector_value", "media": "media_query", "plain": "split_to_pair"}
        for k in can:
            kinds.add(k)
            cx.ob("row-handled-as-what-it-is", f["p"], len(mine) == 1 and len(sv + mq + pr) == 1 and mine[0].name.endswith(want[k]), f"{k}: {desc(p)}")
        for e in mq:
            docs = p.ret.a[4] if p.ret.op == "agg" and len(p.ret.a) > 4 else None
            cx.ob("media-rules-go-to-the-same-list", f["p"], e.args[2] is docs, desc(p))
        if not pr:
            continue
        hit = next((v for x, v, h in variants_on(p, "Option") if x is pr[0].res), None)
        pair = T("vf", pr[0].res, "Some", "0")
        name, value = T("f", pair, "0"), T("f", pair, "1")
        own = [e for e in calls(p, "::push$|::insert$") if e.args[-1].op == "agg" and e.args[-1].a[0] == "tuple" and T("call", "x") is not None and "autocss_" in show(e.args[-1].a[3]) and not an or e.args[-1].op == "agg" and e.args[-1].a[0] == "tuple" and e.args[-1].a[3].op in ("call", "fmt")]
        joined = [x for e in own for x in [e.args[-1].a[4]] if x.op == "call" and x.a[0].endswith("::join")]
        cx.ob("declarations-joined-into-the-own-rule", f["p"], len(joined) == 1 and "".join(map(str, text(joined[0].a[3]))).strip() == ";", desc(p))
        if len(joined) != 1:
            continue
        decl = [x for k, x in seq(p, joined[0].a[2]) if k == "elem"]
        is_an = [e.args[1] for e in brs(p) if e.args[0].op == "bin" and e.args[0].a[0] == "Eq" and any(text(x) == ["animation"] for x in e.args[0].a[1:]) and any(plain(x) is name for x in e.args[0].a[1:])]
        if hit == "None":
            cx.ob("row-without-a-colon-kept", f["p"], len(decl) == 1 and text(decl[0]) == [it], desc(p))
        else:
            v = T("f", an[0].res, "0") if an else value
            ok = len(decl) == 1 and same(text(decl[0]), [name, ":", v]) and is_an[:1] == [1 if an else 0] and (not an or len(an) == 1 and an[0].args[0] is value)
            kinds.add("animation" if an else "declaration")
            cx.ob("declaration-written-with-its-value", f["p"], ok, desc(p))
    cx.ob("all-kinds-of-rows-handled", f["p"], kinds >= {"pseudo", "ref", "media", "plain", "animation", "declaration"}, str(sorted(kinds)))
    media(cx)


def media(cx):
    f = cx.fn(TC + "transform_css_media_query")
    fb = r"find_brackets$"
    OP = fb + r"|css_split_rows$|selector_value$"
    D, PS = T("param", "css_documents"), T("param", "parent_selector")
    n, told = 0, 0
    for p in cx.run(f, [OP, "::push$", "::push_str$", "::insert$", "::extend$"], opaque=opq(OP), branches=anyb):
        g = calls(p, fb)
        hit = next((v for x, v, h in variants_on(p, "Option") if g and x is g[0].res), None)
        out = [e for e in calls(p, "::push$|::insert$") if e.args[0] is D]
        if hit != "Some":
            cx.ob("query-without-a-block-gives-nothing", f["p"], hit == "None" and not out, desc(p))
            continue
        b = T("vf", g[0].res, "Some", "0")
        sp = calls(p, "css_split_rows$")
        cx.ob("rows-of-the-query-block", f["p"], len(sp) == 1 and sp[0].args[0] is T("f", b, "1"), desc(p))
        if len(sp) != 1:
            continue
        vis = visited(p, sp[0].res)
        it = T("item", sp[0].res)
        vecs = [e for e in calls(p, "Vec::push$") if e.args[0] is not D]
        reg = [e for e in vecs if text(e.args[1]) == [it]]
        sv = calls(p, "selector_value$")
        pse = [e for e in vecs if any(e.args[1].has(s.res) for s in sv)]
        if len(vis) == 1:
            n += 1
            can = first_chars(p, it)
            if "pseudo" in can:
                some = next((v for x, v, h in variants_on(p, "Option") if sv and x is sv[0].res), None)
                ok = len(sv) == 1 and sv[0].args[0] is it and sv[0].args[1] is PS and len(pse) == (some == "Some") and not reg
                if ok and pse:
                    r = T("vf", sv[0].res, "Some", "0")
                    ok = same(text(pse[0].args[1]), [T("f", r, "0"), "{", T("f", r, "1"), "}"])
                cx.ob("pseudo-rule-of-a-query-kept", f["p"], ok, desc(p))
            if "plain" in can:
                cx.ob("declaration-of-a-query-kept", f["p"], len(reg) == 1 and not pse, desc(p))
            if {"plain", "pseudo"} <= can:
                cx.ob("query-rows-told-apart", f["p"], False, desc(p))
        # what comes out
        if len(vis) > 1:
            continue
        empties = {e.args[0].a[2]: e.args[1] for e in brs(p) if e.args[0].op == "call" and e.args[0].a[0].endswith("is_empty")}
        lr, lp = {e.args[0] for e in reg}, {e.args[0] for e in pse}
        cx.ob("query-rows-finished-before-use", f["p"], finished(p, lambda d: d is sp[0].res), desc(p))
        cx.ob("one-rule-set-per-query", f["p"], len(out) <= 1, desc(p))
        if not out:
            cx.ob("query-dropped-only-when-empty", f["p"], all(empties.get(x) == 1 for x in lr | lp), desc(p))
            continue
        d = out[0].args[-1]
        body = d.a[4] if d.op == "agg" and len(d.a) == 5 else T("?")
        cx.ob("rule-set-under-its-query", f["p"], d.op == "agg" and text(d.a[3]) == [T("f", b, "0")], show(d)[:160])
        if body.op == "call" and body.a[0].endswith("::join"):
            pcs = [y for k, x in seq(p, body.a[2]) for y in (text(x) if k == "elem" else [x])]
        else:
            ps = calls(p, r"String::(push|push_str)$")
            first = [y for y in text(ps[0].args[0]) if not isinstance(y, T) or not empty_str(y)] if ps and ps[0].args[0].op not in ("mut", "loop", "call") else []
            pcs = first + [y for e in ps for y in text(e.args[1])] or text(body)
        pcs = [y for y in (("".join(x.split()) if isinstance(x, str) else x) for x in pcs) if y != ""]
        # [class { declarations }] then the pseudo rules one after another
        joins = [x for x in pcs if isinstance(x, T) and x.op == "call" and x.a[0].endswith("::join")]
        tail = [x for x in joins if x.a[2] in lp or x.a[2] not in lr and not "".join(map(str, text(x.a[3]))).strip()]
        pcs = [x.a[2] if x in tail else x for x in pcs]
        joins = [x for x in joins if x not in tail]
        ok = len(joins) <= 1
        i = 0
        if joins:
            told += 1
            ok = ok and len(pcs) >= 4 and pcs[0] is PS and pcs[1] == "{" and pcs[2] is joins[0] and pcs[3] == "}" and "".join(map(str, text(joins[0].a[3]))).strip() == ";"
            ok = ok and (not lr or joins[0].a[2] in lr)
            i = 4
        rest = pcs[i:]
        if lp and reg == []:
            rest_ok = all(isinstance(x, T) and (x.op == "item" and x.a[0] in lp or x in lp) for x in rest)
        else:
            rest_ok = all(isinstance(x, T) and x.op in ("item", "call", "loop", "empty", "agg") for x in rest)
        cx.ob("query-content-is-the-class-rule-then-its-pseudo-rules", f["p"], ok and rest_ok, " ".join(show(x)[:60] if isinstance(x, T) else x for x in pcs))
        # declarations that were collected are written
        if lr and all(empties.get(x) == 0 for x in lr):
            cx.ob("collected-declarations-written", f["p"], bool(joins), desc(p))
        for x in lp:
            cx.ob("collected-pseudo-rules-visited", f["p"], x in pcs or finished(p, lambda d: d is x) or any(isinstance(y, T) and y.has(x) for y in pcs), desc(p))
    cx.floor("rows of a query", n, 3)
    cx.floor("queries with declarations", told, 1)
