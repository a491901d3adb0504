"""What the macros expand to: the expansions of engine/witness/vp_witness.rs, compiled against the current tree."""
import re
from ..core import check
from ..q import *
from ..term import T, show
from .reactive import anyb

U = "vp_witness"
W = "vp_witness::"
LIB = lambda q: q.startswith("vertigo::") or q.startswith("<vertigo::")
P = lambda n: T("param", n)


def plain(t):
    while t.op in ("str", "cast"):
        t = t.a[0]
    return t


def lit(t):
    t = plain(t)
    return t.a[0] if t.op == "c" and isinstance(t.a[0], str) else None


def tail(path):
    return re.sub(r"<.*?>", "", path).rsplit("::", 1)[-1]


def on(t, method, ty=None):
    return t.op == "call" and t.a[0].rsplit("::", 1)[-1] == method and (ty is None or re.search(r"(^|[:<])" + ty + r"( |::|>)", t.a[0]))


CONV = re.compile(r"(convert::(From|Into)>?::(from|into)|EmbedDom>?::embed)$")


def node(t):
    """the DOM a term builds: ('el', name, attributes, handlers, children) | ('text', x) | ('embed', x) | ('fragment', [...])"""
    t = plain(t)
    while t.op == "call" and re.search(r"convert::(From|Into)>?::(from|into)$", t.a[0]):
        t = plain(t.a[2])
    if t.op == "agg" and str(t.a[0]).endswith("DomNode"):
        return node(t.a[3])
    if on(t, "embed"):
        x = plain(t.a[2])
        return node(x) if x.op == "call" and re.search(r"Dom(Element|Text|Comment)::", x.a[0]) else ("text", lit(x)) if lit(x) is not None else ("embed", x)
    if on(t, "new", "DomText"):
        return ("text", lit(t.a[2])) if lit(t.a[2]) is not None else ("text", t.a[2])
    if on(t, "dom_fragment"):
        x = t.a[2]
        return ("fragment", [node(y) for y in x.a[3:]]) if x.op == "agg" and x.a[0] in ("array", "vec") else ("?", t)
    steps = []
    while t.op == "call" and "DomElement::" in t.a[0] and not t.a[0].endswith("DomElement::new"):
        steps.append((t.a[0].rsplit("::", 1)[-1], t.a[3:]))
        t = plain(t.a[2])
    if not on(t, "new", "DomElement"):
        return ("value", t)
    attrs, handlers, kids = [], {}, []
    for m, args in reversed(steps):
        if m in ("child", "child_text"):
            kids.append(node(args[0]) if m == "child" else ("text", lit(args[0]) or args[0]))
        elif m == "children":
            x = args[0]
            if x.op == "mapped":
                y = x.a[1]
                none = y.op == "item" and y.a[0].op == "empty"
                kids.append(("each", x.a[0]) if none or y is T("item", x.a[0]) or on(y, "embed") and y.a[2] is T("item", x.a[0]) else ("?", x))
            else:
                kids.append(("each", x))
        elif m == "attr":
            attrs.append((lit(args[0]), lit(args[1]) if lit(args[1]) is not None else plain(args[1])))
        elif m in handlers:
            handlers[m + "#twice"] = args[0]
        else:
            handlers[m] = plain(args[0])
    return ("el", lit(t.a[2]), sorted(attrs, key=lambda x: str(x[0])), handlers, kids)


def el(name, attrs=(), handlers=None, kids=()):
    return ("el", name, sorted(attrs, key=lambda x: str(x[0])), dict(handlers or {}), list(kids))


def sn(x):
    if isinstance(x, T):
        return show(x)
    if isinstance(x, (list, tuple)):
        return "[" + ", ".join(sn(y) for y in x) + "]"
    if isinstance(x, dict):
        return "{" + ", ".join(f"{k}: {sn(v)}" for k, v in x.items()) + "}"
    return str(x)


def text(x):
    return ("text", x)


def emb(n):
    return ("embed", P(n) if isinstance(n, str) else n)


def dom_is(cx, rule, fname, want, opaque=LIB):
    n = 0
    for p in cx.run(W + fname, [r"."], unit=U, branches=anyb, opaque=opaque):
        n += 1
        got = node(p.ret) if p.end == "ret" and p.ret is not None else None
        cx.ob(rule, fname, got == want, f"built {sn(got)[:600]}, written {sn(want)[:600]}")
    cx.floor(f"{fname} expansions", n, 1)


@check("G01", (U,))
def g01(cx):
    dom_is(cx, "tree-is-the-one-written", "tree", el("div", [("id", P("a")), ("title", "fixed"), ("data-extra", P("b"))], {}, [
        text("first"), el("p", [("class", "x")], {}, [el("b", (), {}, [emb("s")]), text("tail")]), emb("c"), el("br"), text("last")]))
    dom_is(cx, "tree-is-the-one-written", "element", el("section", [("name", P("name")), ("aria-label", P("a"))], {}, [el("i"), el("u")]))
    dom_is(cx, "several-roots-in-order", "roots", ("fragment", [el("h1", (), {}, [text("one")]), el("h2", (), {}, [emb("x")]), el("h3")]))
    dom_is(cx, "spread-children-in-place", "spread", el("ul", (), {}, [el("li", (), {}, [emb("pre")]), ("each", P("items")), el("li")]))
    names = ["on_click", "on_mouse_down", "on_mouse_up", "on_mouse_enter", "on_mouse_leave", "on_blur", "on_load"]
    dom_is(cx, "handler-goes-to-its-event", "mouse", el("div", (), dict(zip(names, map(P, "abcdefg")))))
    names = ["on_input", "on_change", "on_key_down", "hook_key_down", "on_dropfile"]
    dom_is(cx, "handler-goes-to-its-event", "keys", el("input", (), dict(zip(names, map(P, "abcde")))))
    dom_is(cx, "short-attribute-is-named-after-its-value", "short",
           el("input", [("title", P("title"))], {k: P(k) for k in ("on_click", "css", "on_input")}))
    dom_is(cx, "style-and-suspense", "styled", el("div", (), {"css": P("c"), "suspense": T("agg", "std::option::Option", "Some", ("0",), P("waiting"))},
                                                   [el("p", (), {"css": P("d")})]))


@check("G02", (U,))
def g02(cx):
    part = lambda **k: k
    opq = lambda q: LIB(q) or q.endswith(("Part::mount", "Label::mount"))

    def given(fname, wants, of="Part"):
        n = 0
        for p in cx.run(W + fname, [r"(Part|Label)::mount$", r"Default"], unit=U, branches=anyb, opaque=opq):
            n += 1
            ms = calls(p, rf"{of}::mount$")
            if not cx.ob("component-is-mounted-where-it-is-written", fname, p.end == "ret" and len(ms) == len(wants), desc(p)):
                continue
            for e, want in zip(ms, wants):
                x = e.args[0]
                got = {k: (lit(v) if lit(v) is not None else plain(v)) for k, v in afields(x).items()} if agg_of(x, of) else {}
                for k, v in want.items():
                    g = got.get(k)
                    ok = g is not None and (g == v if not isinstance(v, T) else g is v or v.op == "default" and (on(g, "default") or g.op == "default"))
                    cx.ob("parameter-reaches-the-component", f"{fname}: {k}", ok, f"{k} = {sn(g)}, written {sn(v)}")
                cx.ob("parameter-reaches-the-component", fname, set(got) == set(want), str(sorted(got)))
            if fname == "components":
                t = node(p.ret)
                ok = t[0] == "el" and t[1] == "div" and len(t[4]) == 3 and t[4][0] == ("value", ms[0].res) and t[4][1] == ("value", ms[1].res) and t[4][2] == text("after")
                cx.ob("component-is-mounted-where-it-is-written", fname, ok, sn(t)[:500])
            elif fname == "path_components":
                t = node(p.ret)
                ok = t[0] == "el" and t[1] == "div" and len(t[4]) == 2 and t[4][0] == ("value", ms[0].res) and t[4][1] == el("p", [], {}, [("value", ms[1].res)])
                cx.ob("component-is-mounted-where-it-is-written", fname, ok, sn(t)[:500])
            else:
                cx.ob("component-is-mounted-where-it-is-written", fname, node(p.ret) == ("value", ms[0].res), show(p.ret)[:300])
        cx.floor(fname + " expansions", n, 1)

    D = T("default")
    nine = T("c", 9)
    given("components", [part(first=P("a"), second=P("second"), third=P("t"), fourth=nine), part(first="lit", second=P("r"), third=P("t2"), fourth=D)])
    given("component_root", [part(first=P("first"), second=P("second"), third=P("third"), fourth=D)])
    given("path_components", [part(text=P("a")), part(text=P("b"))], "Label")
    given("path_root", [part(text=P("a"))], "Label")
    S = P("self")
    f = lambda k: T("f", S, k)
    dom_is(cx, "component-body-sees-its-parameters", "Part::mount",
           el("div", [("title", f("first")), ("alt", f("third")), ("size", f("fourth"))], {}, [("embed", f("second"))]))
    n = 0
    for p in cx.run(W + "Wrap::mount", [r"use_both$"], unit=U, opaque=lambda q: LIB(q) or q.endswith("use_both")):
        n += 1
        e = calls(p, r"use_both$")
        ok = p.end == "ret" and len(e) == 1 and e[0].args[0] is f("one") and e[0].args[1] is f("two") and node(p.ret) == ("value", e[0].res)
        cx.ob("component-body-sees-its-parameters", "Wrap::mount", ok, desc(p) + show(p.ret))
    cx.floor("generic component", n, 1)


# ------------------------------------------------------------------------------------------------ JSON
def enc(t, p):
    """form a to_json term has: ('field', x) | ('text', s) | ('list', [...]) | ('object', {name: form})"""
    t = plain(t)
    if on(t, "to_json"):
        x = t.a[2]
        return ("text", lit(x)) if lit(x) is not None else ("field", x)
    if t.op == "agg" and str(t.a[0]).endswith("JsJson"):
        if t.a[1] == "String":
            return ("text", lit(t.a[3]))
        if t.a[1] == "List":
            x = t.a[3]
            elems = x.a[3:] if x.op == "agg" else [y for _, y in contents(p, x)]
            return ("list", [enc(y, p) for y in elems])
        if t.a[1] == "Object":
            out = {}
            x = t.a[3]
            pairs = [(y.a[3], y.a[4]) for y in x.a[3:]] if x.op == "agg" and x.a[0] == "array" else []
            pairs += [(e.args[1], e.args[2]) for e in p.trace if e.kind == "call" and e.args and e.args[0] is x and e.name.endswith("insert")]
            for k, v in pairs:
                if lit(k) in out:
                    return ("twice", lit(k))
                out[lit(k)] = enc(v, p)
            return ("object", out)
    return ("?", t)


def okof(t, r):
    return t is T("vf", r, "Ok", "0") or t is r


def source(t, p):
    """where a decoded field comes from: ('prop', base, name) | ('elem', list, index) | ('whole', term) | ('key', map, name)"""
    t = plain(t)
    while t.op == "vf" and t.a[1] in ("Ok", "Some"):
        t = plain(t.a[0])
    if on(t, "get_property"):
        return ("prop", plain(t.a[2]), lit(t.a[4]))
    if on(t, "from_json"):
        return origin(t.a[3], p)
    return ("?", t)


def origin(x, p):
    x = plain(x)
    while x.op == "vf" and x.a[1] in ("Ok", "Some"):
        x = plain(x.a[0])
    if x.op == "call" and re.search(r"HashMap::(get|get_mut|remove|get_key_value)$", x.a[0]):
        return ("key", x.a[2], lit(x.a[3]))
    if x.op == "call" and re.search(r"(Vec|VecDeque)::(pop|pop_back|pop_front|remove|swap_remove)$", x.a[0]) or x.op == "next":
        box = x.a[0] if x.op == "next" else x.a[2]
        evs = [e for e in p.trace if e.kind == "call" and e.res is not None and e.args and e.args[0] is box and re.search(r"::(pop|pop_back|pop_front|remove|next)$", e.name)]
        k = [i for i, e in enumerate(evs) if e.res is x or x in e.res.subs()]
        back = x.op == "call" and re.search(r"::(pop|pop_back)$", x.a[0])
        r = box
        first = p.trace.index(evs[k[0]]) if k else 0
        if sum(1 for e in p.trace[:first] if e.kind == "call" and e.name.endswith("::reverse") and e.args and e.args[0] is box) % 2:
            back = not back
        while r.op in ("rev",):
            back, r = not back, r.a[0]
        return ("elem", r, None if back or not k else k[0])
    if x.op == "call" and re.search(r"Index.*::index$", x.a[0]):
        return ("elem", x.a[2], ev(x.a[3], {}))
    return ("whole", x)


def results(cx, ty, direction):
    return cx.run(f"<{W}{ty} as vertigo::JsJson{direction}>::" + ("to_json" if direction == "Serialize" else "from_json"),
                  [r"."], unit=U, branches=anyb, opaque=LIB)


def decoded(cx, ty, p):
    """the aggregate a parsing path gives, or None for an error"""
    if not cx.ob("parsing-answers", ty, p.end == "ret" and p.ret is not None, desc(p)):
        return None
    if agg_of(p.ret, "Result", "Err"):
        return None
    r = p.ret.a[3] if agg_of(p.ret, "Result", "Ok") else None
    cx.ob("parsing-gives-the-type", ty, r is not None and agg_of(r, ty), show(p.ret)[:300])
    return r if r is not None and agg_of(r, ty) else None


def refused(p):
    """a path that fails because something inside it did"""
    return any(e.args[1] in ("Err", "None") for e in brs(p) if e.args[0].op == "discr")


@check("G03", (U,))
def g03(cx):
    S, J = P("self"), P("json")
    CTX = ("context", "ctx")
    fld = lambda k: ("field", T("f", S, k))
    vfld = lambda v, k: ("field", T("vf", S, v, k))
    obj = lambda **k: ("object", k)
    n = 0
    # records: one property per field, under the field's name
    for ty, fields in (("Record", ["name", "type", "inner", "level"]), ("Record2", ["list", "ok"]), ("Nothing", [])):
        for p in results(cx, ty, "Serialize"):
            n += 1
            cx.ob("record-is-an-object-of-its-fields", ty, p.end == "ret" and enc(p.ret, p) == ("object", {k: fld(k) for k in fields}), sn(enc(p.ret, p)))
        oks = 0
        for p in results(cx, ty, "Deserialize"):
            n += 1
            r = decoded(cx, ty, p)
            if r is None:
                cx.ob("record-is-refused-only-when-a-field-is", ty, refused(p), desc(p))
                continue
            oks += 1
            for k, v in afields(r).items():
                k = k.replace("r#", "")
                s = source(v, p)
                if k == "level" and plain(v).op == "c":
                    cx.ob("default-only-when-the-field-is-not-there", ty, plain(v).a[0] == 7 and any(e.args[1] == "Err" and on(e.args[0].a[0], "get_property") and lit(e.args[0].a[0].a[4]) == "level" for e in brs(p) if e.args[0].op == "discr"), desc(p))
                    continue
                cx.ob("field-is-read-under-its-name", f"{ty}.{k}", s[0] == "prop" and s[1] is J and s[2] == k, sn(s))
        cx.floor(ty + " parsed", oks, 2 if ty == "Record" else 1)
    # one field: transparent
    for p in results(cx, "Single", "Serialize"):
        n += 1
        cx.ob("single-field-is-transparent", "Single", p.end == "ret" and enc(p.ret, p) == fld("0"), sn(enc(p.ret, p)))
    oks = 0
    for p in results(cx, "Single", "Deserialize"):
        n += 1
        if p.ret is not None and on(p.ret, "from_json"):
            continue
        r = decoded(cx, "Single", p)
        if r is None:
            cx.ob("record-is-refused-only-when-a-field-is", "Single", refused(p), desc(p))
            continue
        oks += 1
        cx.ob("single-field-is-transparent", "Single", source(r.a[3], p) == ("whole", J), sn(source(r.a[3], p)))
    cx.floor("Single parsed", oks, 1)
    # several unnamed fields: a list
    n += tuple_like(cx, "Triple", None, T("vf", J, "List", "0"), 3, lambda p: enc(p.ret, p), ("list", [fld(str(i)) for i in range(3)]))
    # variants
    units, forms = ["Empty", "Raw", "Last"], {
        "Empty": ("text", "Empty"), "Raw": ("text", "Raw"), "Last": ("text", "Last"), "One": obj(One=vfld("One", "0")),
        "Two": obj(Two=("list", [vfld("Two", "0"), vfld("Two", "1")])), "Named": obj(Named=obj(left=vfld("Named", "left"), right=vfld("Named", "right")))}
    seen = set()
    for p in results(cx, "Choice", "Serialize"):
        n += 1
        v = [e.args[1] for e in brs(p) if e.name == "=" and e.args[0].op == "discr" and e.args[0].a[0] is S]
        v = v[-1].replace("r#", "") if v else None
        seen.add(v)
        cx.ob("variant-is-written-under-its-name", f"Choice::{v}", p.end == "ret" and enc(p.ret, p) == forms.get(v), sn(enc(p.ret, p)))
    cx.ob("every-variant-is-written", "Choice", seen == set(forms), str(seen))
    seen = set()
    for p in results(cx, "Choice", "Deserialize"):
        n += 1
        kind = [e.args[1] for e in brs(p) if e.name == "=" and e.args[0].op == "discr" and e.args[0].a[0] is J]
        kind = kind[-1] if kind else None
        txt = T("vf", J, "String", "0")
        if runs_out(p, 2):
            continue
        same = lambda w: [e.args[1] for e in brs(p) if eq_text(e.args[0], txt) == w]
        r = decoded(cx, "Choice", p)
        if r is None:
            # an error: nothing of what was written leads here
            bad = kind == "String" and any(same(u)[-1:] == [1] or not same(u) for u in units)
            key = [origin(e.args[0].a[0], p) for e in brs(p) if e.args[0].op == "discr" and e.args[1] == "Some"]
            hit = {k[2] for k in key if k[0] == "key"}
            absent = {k[2] for k in [origin(e.args[0].a[0], p) for e in brs(p) if e.args[0].op == "discr" and e.args[1] == "None"] if k[0] == "key"}
            if kind == "Object":
                bad = bool(hit) and not refused_inside(p, hit) or not hit and not {"One", "Two", "Named"} <= absent
            cx.ob("what-was-written-is-not-refused", "Choice", not bad, desc(p, 12))
            continue
        v = r.a[1].replace("r#", "")
        seen.add(v)
        if v in units:
            cx.ob("variant-is-known-by-its-name", f"Choice::{v}", kind == "String" and same(v)[-1:] == [1] and not any(same(u)[-1:] == [1] for u in units if u != v), desc(p, 12))
            continue
        hit = [o[2] for o in (origin(e.args[0].a[0], p) for e in brs(p) if e.args[0].op == "discr" and e.args[1] == "Some") if o[0] == "key"]
        cx.ob("variant-is-known-by-its-name", f"Choice::{v}", kind == "Object" and hit[-1:] == [v], str(hit))
        body = lambda t: origin(t, p)
        MAP = T("vf", J, "Object", "0")
        src = {k.replace("r#", ""): source(x, p) for k, x in afields(r).items()}
        if v == "One":
            ok = src == {"0": ("key", MAP, "One")}
        elif v == "Two":
            exact_list(cx, p, 2, "Choice::Two")
            ok = all(src[str(i)][0] == "elem" and src[str(i)][2] == i and list_of_key(src[str(i)][1], MAP, "Two") for i in (0, 1))
        else:
            ok = set(src) == {"left", "right"} and all(s[0] == "prop" and s[2] == k and origin(s[1], p) == ("key", MAP, "Named") for k, s in src.items())
        cx.ob("field-is-read-from-its-place", f"Choice::{v}", ok, sn(src))
    cx.ob("every-variant-is-parsed", "Choice", seen == set(forms), str(seen))
    # a default inside a variant
    used, whole = 0, T("vf", J, "Object", "0")
    for p in results(cx, "Preset", "Deserialize"):
        n += 1
        r = decoded(cx, "Preset", p)
        miss = {lit(e.args[0].a[0].a[4]) for e in brs(p) if e.args[0].op == "discr" and e.args[1] == "Err" and e.name == "=" and on(e.args[0].a[0], "get_property")}
        if r is None:
            cx.ob("default-in-a-variant-is-used", "Preset::On.level", "level" not in miss, desc(p))
            continue
        for k, v in afields(r).items():
            if k == "level" and plain(v).op == "c":
                used += 1
                cx.ob("default-only-when-the-field-is-not-there", "Preset::On", plain(v).a[0] == 7 and "level" in miss, desc(p))
            else:
                s = source(v, p)
                cx.ob("field-is-read-under-its-name", f"Preset::On.{k}", s[0] == "prop" and s[2] == k and origin(s[1], p) == ("key", whole, "On"), sn(s))
    cx.ob("default-in-a-variant-is-used", "Preset", used > 0, "no path uses the declared default")
    cx.floor("conversion paths", n, 30)


def eq_text(t, x):
    """text that t compares x with"""
    if t.op == "bin" and t.a[0] == "Eq":
        a, b = plain(t.a[1]), plain(t.a[2])
        if a is x:
            return lit(b)
        if b is x:
            return lit(a)
    if t.op == "call" and t.a[0].endswith("::eq"):
        a, b = plain(t.a[2]), plain(t.a[3])
        return lit(b) if a is x else lit(a) if b is x else None
    return None


def refused_inside(p, hit):
    """after finding the variant something inside it failed, or its shape is wrong"""
    bs = brs(p)
    i = max(i for i, e in enumerate(bs) if e.args[0].op == "discr" and e.args[1] == "Some" and origin(e.args[0].a[0], p)[0] == "key")
    for e in bs[i + 1:]:
        t = e.args[0]
        if t.op == "discr" and (e.args[1] == "Err" or e.name != "=" and "List" in e.args[1] or isinstance(e.args[1], str) and str(t.a[1]).endswith("JsJson") and e.args[1] != "List" and any(origin(t.a[0], p)[0] == "key" for _ in (0,))):
            return True
        if t.op == "bin" and t.a[0] in ("Eq", "Ne") and any(x.op == "call" and x.a[0].endswith("::len") for x in t.subs()):
            L = next(x for x in t.subs() if x.op == "call" and x.a[0].endswith("::len"))
            if ev(t, {L: 2}) != e.args[1]:
                return True
    return False


def lengths(p):
    return {x for e in brs(p) for x in e.args[0].subs() if x.op == "call" and x.a[0].endswith("::len")}


def runs_out(p, width):
    """takes an element of a list of that length that is not there: not possible"""
    if not lengths(p) or all(consistent(p, {L: w}) for L in lengths(p) for w in (width - 1, width + 1)):
        return False
    gone = [e for e in brs(p) if e.args[0].op == "discr" and e.args[1] == "None" and origin(e.args[0].a[0], p)[0] == "elem"]
    return bool(gone) and all((origin(e.args[0].a[0], p)[2] or 0) < width for e in gone)


def exact_list(cx, p, width, where):
    cx.ob("list-of-another-length-is-refused", where, lengths(p) and all(not consistent(p, {L: w}) for L in lengths(p) for w in (width - 1, width + 1)), desc(p, 12))


def list_of_key(t, m, k):
    return t.op == "vf" and t.a[1] == "List" and origin(t.a[0], None) == ("key", m, k)


def tuple_like(cx, ty, variant, lst, width, form, want):
    n = 0
    for p in results(cx, ty, "Serialize"):
        n += 1
        cx.ob("fields-are-a-list-in-order", ty, p.end == "ret" and form(p) == want, sn(form(p)))
    oks = 0
    for p in results(cx, ty, "Deserialize"):
        n += 1
        if runs_out(p, width):
            continue
        r = decoded(cx, ty, p)
        if r is None:
            L = [e for e in brs(p) if e.args[0].op == "bin" and any(x.op == "call" and x.a[0].endswith("::len") for x in e.args[0].subs())]
            wrong = any(ev(e.args[0], {next(x for x in e.args[0].subs() if x.op == "call" and x.a[0].endswith("::len")): width}) != e.args[1] for e in L)
            notlist = any(e.args[0].op == "discr" and e.args[0].a[0] is P("json") and (e.args[1] != "List" if e.name == "=" else "List" in e.args[1]) for e in brs(p))
            cx.ob("list-is-refused-only-for-its-contents", ty, wrong or notlist or refused(p), desc(p, 12))
            continue
        oks += 1
        exact_list(cx, p, width, ty)
        for i, x in enumerate(r.a[3:]):
            s = source(x, p)
            cx.ob("field-is-read-from-its-place", f"{ty}.{i}", s[0] == "elem" and s[1] is lst and s[2] == i, sn(s))
    cx.floor(ty + " parsed", oks, 1)
    return n


# ------------------------------------------------------------------------------------------------ bind
@check("G04", (U,))
def g04(cx):
    A, B = P("a"), P("b")
    FLD = T("f", P("h"), "field")
    n = 0

    def cloned(p, want):
        got = [plain(e.args[0]) for e in p.trace if e.kind == "call" and e.name.endswith("Clone>::clone")]
        return len(got) == len(want) and all(any(g is w for g in got) for w in want)

    def inside(c, extra, want, where):
        """the closure's body uses what was bound"""
        nonlocal n
        inst = cx.crate(U).insts[c.a[1]]
        for q in cx.run(inst, [r"seen$"], unit=U, args=[c] + extra, opaque=lambda x: LIB(x) or x.endswith("seen")):
            n += 1
            e = calls(q, r"vp_witness::seen$")
            ok = q.end == "ret" and len(e) == 1 and len(e[0].args) == 4 and all(plain(g) is w for g, w in zip(e[0].args, want))
            cx.ob("body-sees-what-was-bound", where, ok, desc(q))

    for fname, tk, extra in (("bound0", "take0", []), ("bound1", "take1", [P("x")])):
        for p in cx.run(W + fname, [r"."], unit=U, opaque=lambda q: LIB(q) or re.search(r"take[01]$", q)):
            n += 1
            e = calls(p, r"take[01]$")
            ok = p.end == "ret" and len(e) == 1 and e[0].name.endswith(tk) and e[0].args[0].op == "clo" and p.ret is e[0].res
            cx.ob("expands-to-the-closure", fname, ok, desc(p))
            cx.ob("each-name-is-cloned-once", fname, cloned(p, [A, B, FLD]), desc(p))
            if ok:
                inside(e[0].args[0], extra, [A, B, FLD] + (extra or [T("c", 1)]), fname)
    for p in cx.run(W + "bound_rc", [r"."], unit=U, opaque=LIB):
        n += 1
        c = [x for x in p.ret.subs() if x.op == "clo"] if p.ret is not None else []
        cx.ob("expands-to-the-closure", "bound_rc", p.end == "ret" and len(c) == 1, show(p.ret))
        cx.ob("each-name-is-cloned-once", "bound_rc", cloned(p, [A, B]), desc(p))
        if c:
            inside(c[0], [P("x")], [A, B, A, P("x")], "bound_rc")
    for p in cx.run(W + "bound_block", [r"."], unit=U, opaque=LIB):
        n += 1
        cx.ob("each-name-is-cloned-once", "bound_block", cloned(p, [A, B]), desc(p))
        cx.ob("future-owns-what-was-bound", "bound_block", p.end == "ret" and future(p.ret, [A, B]), show(p.ret))
    for p in cx.run(W + "bound_spawn", [r"."], unit=U, opaque=lambda q: LIB(q) or re.search(r"take0$", q)):
        n += 1
        e = calls(p, r"take0$")
        ok = p.end == "ret" and len(e) == 1 and e[0].args[0].op == "clo"
        cx.ob("expands-to-the-closure", "bound_spawn", ok, desc(p))
        cx.ob("each-name-is-cloned-once", "bound_spawn", cloned(p, [A, B]), desc(p))
        if not ok:
            continue
        c = e[0].args[0]
        inst = cx.crate(U).insts[c.a[1]]
        for q in cx.run(inst, [r"."], unit=U, args=[c], opaque=LIB):
            n += 1
            sp = calls(q, r"Driver::spawn$")
            ok = q.end == "ret" and len(sp) == 1 and on(sp[0].args[0], "get_driver") and future(sp[0].args[1], [A, B])
            cx.ob("every-call-spawns-a-future-of-its-own", "bound_spawn", ok and cloned(q, [A, B]), desc(q))
    cx.floor("binding expansions", n, 9)


def future(t, caps):
    """a coroutine holding exactly these values"""
    return t is not None and t.op in ("clo", "agg") and len([c for c in caps if any(x is c for x in t.subs())]) == len(caps)


# ------------------------------------------------------------------------------------------------ css
def squash(s):
    """CSS without insignificant blanks and empty declarations"""
    s = re.sub(r"\s+", " ", s)
    s = re.sub(r"\s*([{};:,])\s*", r"\1", s)
    s = re.sub(r";+", ";", s)
    return re.sub(r"};", "}", s).replace(";}", "}").strip("; ")


def css_text(t):
    """text a term is made of, parameters as {name}; and replacements made afterwards"""
    t = plain(t)
    if lit(t) is not None:
        return lit(t), []
    if t.op == "fmt":
        out = ""
        for x in t.a:
            if isinstance(x, str):
                out += x
            elif lit(x) is not None:
                out += lit(x)
            else:
                y = x.a[1] if x.op == "disp" else x
                out += "«" + show(plain(y)) + "»"
        return out, []
    if t.op == "call" and t.a[0].endswith("::replace"):
        s, r = css_text(t.a[2])
        return s, r + [(joined(t.a[3]), joined(t.a[4]))]
    return None, []


def joined(t):
    t = plain(t)
    if lit(t) is not None:
        return [lit(t)]
    if t.op == "call" and re.search(r"::(concat|join)$", t.a[0]) and t.a[2].op == "agg":
        out = []
        for x in t.a[2].a[3:]:
            x = plain(x)
            if lit(x) is not None and out and isinstance(out[-1], str):
                out[-1] += lit(x)
            else:
                out.append(lit(x) if lit(x) is not None else x)
        return out
    if t.op == "fmt":
        out = []
        for x in t.a:
            v = lit(x) if isinstance(x, T) and lit(x) is not None else x if isinstance(x, str) else plain(x.a[1] if x.op == "disp" else x)
            if isinstance(v, str) and out and isinstance(out[-1], str):
                out[-1] += v
            else:
                out.append(v)
        return out
    return [t]


@check("G05", (U,))
def g05(cx):
    n = 0

    def body(t, where):
        ok = t is not None and t.op == "call" and re.search(r"Css::(str|string)$", t.a[0])
        cx.ob("expands-to-a-style", where, ok, show(t))
        return t.a[2] if ok else None

    fixed = """color: red; margin: 1px 2px; border-image: url('pic.png'); :hover { color: blue; }
        @media screen and (min-width: 600px) { width: 10px; height: 5%; }
        animation: 1.0s infinite ease-in-out { 0% { opacity: 0; } 100% { opacity: 1; } }"""
    params = "width: «first»px; color: «second»; height: «first»px; background: url('«third»'); :hover { color: «second»; }"
    for fname, want, repl in (("css_fixed", fixed, []), ("css_params", params, []), ("css_reference", "color: red; :hover [other] { width: «first»px; }", [("[other]", "other")]),
                              ("css_inline", "border: 1px solid «second»; width: calc(100% - «second»);", []),
                              ("css_named", "width: «first»; border: «aa»px solid «ab»; color: «second»;", []), ("css_many", " ".join(f"width: «n{k}»;" for k in range(28)), []), ("css_units", "width: «first»em; height: «second»%; margin: «first»rem «second»vh; padding: «first»px «second»; grid-area: «first»/«second»; :hover { width: «second»em; }", []),
                              ("css_url", "background: url('«first».png');", []), ("css_text", "color: green; :focus { color: black; }", None)):
        for p in cx.run(W + fname, [r"."], unit=U, branches=anyb, opaque=LIB):
            n += 1
            t = p.ret if repl is None else body(p.ret, fname)
            s, r = css_text(t) if t is not None else (None, [])
            cx.ob("text-is-the-one-written", fname, p.end == "ret" and s is not None and squash(s) == squash(want), f"{squash(s or '')!r} for {squash(want)!r}")
            good = len(r) == len(repl or [])
            for (frm, to), (w, v) in zip(r, repl or []):
                good = good and frm == [w] and len(to) == 2 and to[0] == "."
                if not good:
                    continue
                # a style has several classes: the blanks between their names become dots
                x, dots = to[1], False
                while x.op == "call" and not on(x, "class_name_for") and len(x.a) > 2:
                    ws = [plain(y).a[0] if plain(y).op == "c" else None for y in x.a[3:]]
                    ws = [chr(y) if isinstance(y, int) and 0 < y < 128 else y for y in ws]
                    dots = dots or x.a[0].endswith("::replace") and ws == [" ", "."] or x.a[0].endswith("::join") and ws == ["."]
                    x = x.a[2]
                good = good and on(x, "class_name_for") and plain(x.a[3]) is P(v)
                cx.ob("reference-names-every-class-of-that-style", fname, dots, sn(to[1]))
            cx.ob("reference-becomes-the-class-of-that-style", fname, good, sn(r))
    cx.floor("style expansions", n, 9)


# ------------------------------------------------------------------------------------------------ entry point, browser access
@check("G06", (U,))
def g06(cx):
    n = 0
    for p in cx.run(W + "vertigo_entry_function", [r"."], unit=U, branches=anyb, opaque=LIB):
        n += 1
        st, pl = calls(p, r"vertigo::start_app$"), calls(p, r"try_get_plain$")
        ok = p.end == "ret" and len(st) == 1 and len(st[0].args) == 1 and W + "app" in show(st[0].args[0]) and len(pl) == 1 \
            and p.trace.index(st[0]) < p.trace.index(pl[0]) and on(pl[0].args[0], "get_driver")
        cx.ob("entry-point-starts-the-application-once", "vertigo::main", ok, desc(p, 12))
    cx.floor("entry point paths", n, 2)
    major, minor = version(cx)
    V = lambda i: T("f", P("version"), i)
    seen = set()
    for p in cx.run(W + "vertigo_entry_function", [r"(^|\W)log::"], unit=U, branches=anyb, opaque=LIB, logs=True):
        told = any(e.kind == "call" and e.name.endswith("::log") for e in p.trace)
        for a in (major, major + 1):
            for b in (minor, minor + 1):
                if consistent(p, {V("0"): a, V("1"): b}):
                    differs = (a, b) != (major, minor)
                    seen.add((a, b, told))
                    cx.ob("another-version-is-reported", f"version {'differs' if differs else 'is the same'}", not told if not differs else told, desc(p))
    cx.ob("another-version-is-reported", "some path", (major + 1, minor, True) in seen and (major, minor + 1, True) in seen and (major, minor, False) in seen, str(seen))
    ACC = r"Driver::dom_access$|DomAccess::\w+$|get_driver$"
    for fname, root, want in (("access_call", "window", ("call", "scrollTo", [P("a"), P("b")])), ("access_get", "document", ("get", "title", None))):
        for p in cx.run(W + fname, [ACC], unit=U, branches=anyb, opaque=LIB):
            n += 1
            t = p.ret
            ok = on(t, "fetch", "DomAccess")
            x = t.a[2] if ok else None
            ok = ok and on(x, want[0], "DomAccess") and lit(x.a[3]) == want[1] and on(x.a[2], "root", "DomAccess") and lit(x.a[2].a[3]) == root and on(x.a[2].a[2], "dom_access")
            if ok and want[2] is not None:
                args = x.a[4].a[3:] if x.a[4].op == "agg" else []
                ok = len(args) == len(want[2]) and all(any(y is w for y in a.subs()) for a, w in zip(args, want[2]))
            cx.ob("access-asks-for-what-is-written", fname, p.end == "ret" and ok and len(calls(p, r"DomAccess::fetch$")) == 1, show(t))
    cx.floor("access paths", n, 4)


def version(cx):
    m = re.search(r'^version\s*=\s*"(\d+)\.(\d+)', cx.file("crates/vertigo-macro/Cargo.toml"), re.M) or \
        re.search(r'\[workspace\.package\][^\[]*?^version\s*=\s*"(\d+)\.(\d+)', cx.file("Cargo.toml"), re.M | re.S)
    cx.need(m, "version of the macro crate")
    return int(m.group(1)), int(m.group(2))
