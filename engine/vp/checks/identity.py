"""R13: copies are the same thing, and equality, order and hash agree on what that is."""
import re

from ..core import check
from ..q import brs, calls, desc, afields
from ..term import T, show
from .ssr import copy_of
from .wire import WIDTH

ME, IT = T("param", "self"), T("param", "other")
TR = re.compile(r"^<(vertigo.*) as std::(clone::Clone>::clone|cmp::PartialEq>::eq|cmp::PartialEq>::ne|cmp::Ord>::cmp|cmp::PartialOrd>::partial_cmp|hash::Hash>::hash)$")
# what a thing is told apart by, where that is not all of its parts
KEYS = {"Computed": ["inner.id", "inner"], "Value": ["inner.id", "inner"], "GraphId": ["1"], "AutoMap": ["id"], "LazyCache": ["id"], "DomElementRef": ["id"], "WebsocketConnection": ["callback_id"], "Instant": ["instant"],
        "EventEmitter": ["counter", "list"]}
# decided elsewhere
OTHER = {"FetchRequest": "S03"}
NAMED = {"vertigo": ["Computed", "Value", "GraphId", "AutoMap", "LazyCache", "Router", "Resource", "JsJson", "JsValue", "Css", "CssGroup", "DomId", "CallbackId", "StaticString"], "vertigo_cli": ["RequestBody", "DomCommand", "HtmlElement", "ServerState", "RequestState", "MountPathConfig"]}


def mirror(t):
    return t.subst({ME: IT}) if hasattr(t, "subst") else swap(t)


def swap(t, memo=None):
    if t is ME:
        return IT
    a = tuple(swap(x) if isinstance(x, T) else tuple(swap(y) if isinstance(y, T) else y for y in x) if isinstance(x, tuple) else x for x in t.a)
    return T(t.op, *a)


def strip(t):
    while True:
        if t.op == "str" or t.op == "cast" and WIDTH.get(t.a[2], 0) >= WIDTH.get(t.a[1], 9):
            t = t.a[0]
        elif t.op == "call" and len(t.a) == 3 and re.search(r"::(as_ref|deref|borrow|as_str|as_slice|as_ptr|id|get_id|as_u64|to_string|clone|get|iter)$", t.a[0]) and not re.search(r"(Cell|Mut)::get$", t.a[0]):
            t = t.a[2]
        else:
            return t


def route(t):
    """names of the fields from self (or other) to t, without variants; None when t is something else"""
    out = []
    t = strip(t)
    while t.op in ("f", "vf"):
        out.append(str(t.a[1] if t.op == "f" else t.a[2]))
        t = strip(t.a[0])
    return (t, out[::-1]) if t in (ME, IT) else None


def pair(a, b):
    """the part both sides are compared by; False when the two sides are different parts"""
    a, b = strip(a), strip(b)
    if a.op == "discr" and b.op == "discr":
        x = pair(a.a[0], b.a[0])
        return x if not x and x is not None else ("kind", x[1] if x else [])
    ra, rb = route(a), route(b)
    if ra is None or rb is None:
        if a.op == b.op == "call" and a.a[0] == b.a[0] and len(a.a) == len(b.a) and len(a.a) > 2:
            return pair(a.a[2], b.a[2])
        return None
    if ra[0] is rb[0] or ra[1] != rb[1] or variants(a) != variants(b):
        return False
    return ("part", ra[1])


def variants(t):
    out, t = [], strip(t)
    while t.op in ("f", "vf"):
        out.append(t.a[1] if t.op == "vf" else None)
        t = strip(t.a[0])
    return [v for v in out if v]


def pairs(a, b):
    a, b = strip(a), strip(b)
    if a.op == b.op == "agg" and a.a[:3] == b.a[:3] and len(a.a) > 3 and a.a[0] in ("tuple", "array"):
        return [y for x, z in zip(a.a[3:], b.a[3:]) for y in pairs(x, z)]
    return [pair(a, b)]


def atoms(t):
    """comparison in a term: ('eq'|'ne', pairs)"""
    if t.op == "not" or t.op == "un" and t.a[0] in ("Not", "not"):
        r = atoms(t.a[-1])
        return r and ({"eq": "ne", "ne": "eq"}[r[0]], r[1])
    if t.op == "bin" and t.a[0] in ("Eq", "Ne"):
        return ("eq" if t.a[0] == "Eq" else "ne", pairs(t.a[1], t.a[2]))
    if t.op == "call" and len(t.a) == 4 and re.search(r"::(eq|ptr_eq|ne)$", t.a[0]):
        return ("ne" if t.a[0].endswith("::ne") else "eq", pairs(t.a[2], t.a[3]))
    return None


def lines(path):
    """what a path knows: pairs found equal, pairs found different, variant of self and of other"""
    same, diff, var, other = [], [], {}, []
    for b in brs(path):
        t, v = b.args
        if t.op == "discr" and t.a[0] in (ME, IT):
            var.setdefault(t.a[0], []).append((b.name, v))
            continue
        if t.op == "discr" and route(t.a[0]):
            continue          # looking at the kind of a part
        a = atoms(t)
        if a is None:
            other.append(t)
            continue
        truth = (v == 1) == (b.name == "=")
        (same if (a[0] == "eq") == truth else diff).extend(a[1])
    return same, diff, var, other


def which(var, who, names):
    """variants still possible"""
    vs = set(names)
    for n, v in var.get(who, []):
        vs &= {v} if n == "=" else vs - set(v if isinstance(v, tuple) else (v,))
    return vs


def covers(found, want):
    """a part (or a part around it) has been compared"""
    return any(f and f[0] == "part" and f[1] == want[: len(f[1])] for f in found)


def deeper(found, want):
    return any(f and f[0] == "part" and f[1][: len(want)] == want for f in found)


@check("R13", ("vertigo", "vertigo_cli"))
def r13(cx):
    seen, n = {"clone": set(), "eq": set(), "cmp": set(), "hash": set()}, 0
    for unit in ("vertigo", "vertigo_cli"):
        cr = cx.crate(unit)
        done = set()
        for inst in sorted(cr.insts.values(), key=lambda v: (v["p"], v["id"])):
            m = TR.match(inst["p"])
            if not m or inst["p"] in done or unit == "vertigo_cli" and not m.group(1).startswith("vertigo_cli"):
                continue
            done.add(inst["p"])
            full, what = m.group(1), m.group(2).split("::")[-1]
            name = full.split("::")[-1]
            adt = adt_of(cr, full)
            if adt is None or name in OTHER and what != "clone":
                continue
            n += 1
            W = inst["p"]
            seen["cmp" if "cmp" in what else "eq" if what == "ne" else what].add(name)
            opq = (lambda me: lambda p: p != me and bool(TR.match(p)))(inst["p"])
            ps = [p for p in cx.run(inst, ["."], unit=unit, branches=lambda k: True, opaque=opq) if p.end == "ret"]
            if not cx.ob("answers", W, bool(ps), "no path returns"):
                continue
            vs = [v["n"] for v in adt["v"]]
            if what == "clone":
                clone(cx, W, ps)
            elif what in ("eq", "ne"):
                equal(cx, W, ps, adt, name, vs, what == "ne")
            elif what == "cmp":
                order(cx, W, ps, adt, name)
            elif what == "partial_cmp":
                for p in ps:
                    r = p.ret
                    ok = r.op == "agg" and r.a[1] == "Some" and r.a[3].op == "call" and r.a[3].a[0].endswith("::cmp") and list(r.a[3].a[2:4]) == [ME, IT]
                    if not ok:
                        ok = not any(False is pair(e.args[0], e.args[1]) for e in p.trace if e.kind == "call" and e.name.endswith("cmp") and len(e.args) == 2)
                    cx.ob("order-is-that-of-cmp", W, ok, show(r)[:160])
            else:
                hashed(cx, W, ps, name)
    cx.floor("implementations", n, 60)
    fresh(cx)
    cl = seen["clone"] | seen["eq"]
    for unit, names in NAMED.items():
        for x in names:
            cx.ob("has-copies-or-equality", f"{unit}::{x}", x in cl, "no implementation found")
    cx.cov["types"] = {k: sorted(v) for k, v in seen.items()}


def adt_of(cr, full):
    for k, v in cr.adts.items():
        if v.get("local") and (k == full or full.endswith("::" + k) or k.endswith("::" + full.split("::", 1)[-1])):
            return v
    return None


def clone(cx, W, ps):
    for p in ps:
        src = ME
        changes = [e for e in p.trace if e.kind == "store"]
        cx.ob("copy-is-the-same", W, same_as(p.ret, src), f"{show(p.ret)[:260]}")
        cx.ob("copying-changes-nothing", W, not changes, desc(p)[:200])


def same_as(t, src):
    """t is src, a copy of it, or src taken apart and put together again from its own parts"""
    t = strip(t)
    if t is src or copy_of(t, src):
        return True
    if t.op == "call" and re.search(r"::(clone|cloned|to_owned|from|into|new|collect|to_vec)$", t.a[0]) and len(t.a) == 3:
        return same_as(t.a[2], src)
    if t.op == "mapped":
        return strip(t.a[0]) is src and same_as(t.a[1], T("item", t.a[0]))
    if t.op == "agg" and t.a[0] != "array":
        var = t.a[1] if t.a[1] and not str(t.a[0]).endswith("::" + str(t.a[1])) else None
        return all(same_as(v, T("vf", src, var, k)) if var else same_as(v, T("f", src, k)) for k, v in afields(t).items())
    return False


def equal(cx, W, ps, adt, name, vs, neg):
    yes = 0
    for p in ps:
        same, diff, var, other = lines(p)
        at = atoms(p.ret)
        if at and neg:
            at = ({"eq": "ne", "ne": "eq"}[at[0]], at[1])
        cross = [x for x in same + diff + (at[1] if at else []) if x is False]
        cx.ob("the-same-parts-are-compared", W, not cross, "different parts of the two are compared: " + desc(p)[:240])
        mine, its = which(var, ME, vs), which(var, IT, vs)
        if not mine or not its:
            continue
        ret = None if at else (p.ret.a[0] == 1) != neg if p.ret.op == "c" else "?"
        if ret == "?":
            cx.ob("equality-is-of-the-parts", W, False, f"returns {show(p.ret)[:120]}")
            continue
        kinds = [f for f in diff if f and f[0] == "kind"]
        if ret is False:
            apart = [f for f in diff if f] or mine and its and not (mine & its)
            cx.ob("unequal-only-if-a-part-differs", W, bool(apart) or bool(kinds), desc(p)[:240])
            continue
        if at and at[0] == "ne":
            cx.ob("equality-is-of-the-parts", W, False, f"returns {show(p.ret)[:120]}")
            continue
        yes += 1
        found = [f for f in same + (at[1] if at else []) if f]
        if name in KEYS:
            keys = [k.split(".") for k in KEYS[name]]
            ok = any(covers(found, k) or deeper(found, k) for k in keys)
            cx.ob("equal-only-if-it-is-the-same", W, ok, f"compared: {['.'.join(f[1]) for f in found]}, needed: {' or '.join(KEYS[name])}")
            continue
        if adt["kind"] == "enum" and len(vs) > 1:
            onekind = any(f[0] == "kind" and not f[1] for f in found) or len(mine) == 1 and mine == its
            cx.ob("equal-only-if-of-one-kind", W, onekind, desc(p)[:200])
        for v in adt["v"]:
            if adt["kind"] == "enum" and v["n"] not in mine | its:
                continue
            if adt["kind"] == "enum" and len(mine & its) != 1 and (not any(x["f"] for x in adt["v"] if x["n"] in mine & its) or same and not found):
                continue
            if adt["kind"] == "enum" and v["n"] not in mine & its:
                continue
            for f in v["f"]:
                fn = str(f["n"] if isinstance(f, dict) else f[0])
                if isinstance(f, (list, tuple)) and "PhantomData" in str(f):
                    continue
                cx.ob("equal-only-if-all-parts-are", W, covers(found, [fn]) or deeper(found, [fn]), f"{v['n']}: {fn} is not compared when equal is answered: {desc(p)[:200]}")
    cx.ob("equal-things-are-equal", W, yes >= 1, "never answers that two are equal")


def order(cx, W, ps, adt, name):
    for p in ps:
        cm = [e for e in p.trace if e.kind == "call" and re.search(r"::(cmp|partial_cmp)$", e.name) and len(e.args) >= 2]
        bad = [e for e in cm if pair(e.args[0], e.args[1]) is False]
        cx.ob("the-same-parts-are-compared", W, not bad, desc(p)[:240])
        if name in ("GraphId", "DomId"):
            rev = [e for e in cm if any(x is IT for x in e.args[0].subs())]
            back = [e for e in p.trace if e.kind == "call" and e.name.endswith("Ordering::reverse")]
            cx.ob("earlier-things-come-first", W, bool(cm) and not rev and not back, desc(p)[:240])


def hashed(cx, W, ps, name):
    """what is hashed is part of what is compared"""
    for p in ps:
        hs = [e for e in p.trace if e.kind == "call" and re.search(r"::(hash|write(_\w+)?)$", e.name)]
        cx.ob("something-is-hashed", W, bool(hs), desc(p)[:200])
        if name not in KEYS or name == "GraphId":
            continue
        for e in hs:
            if e.name.rsplit("::", 1)[-1] != "hash":
                continue
            r = route(e.args[0].a[0] if e.args[0].op == "discr" else e.args[0])
            cx.ob("only-what-is-compared-is-hashed", W, r is not None and any(".".join(r[1]).startswith(k) for k in KEYS[name]), desc(p)[:200])


MADE = [("vertigo::computed::graph_id::GraphId::new_value", "1"), ("vertigo::computed::graph_id::GraphId::new_computed", "1"), ("vertigo::computed::graph_id::GraphId::new_client", "1"),
        ("vertigo::computed::auto_map::AutoMap::new", "id"), ("vertigo::fetch::lazy_cache::LazyCache::new", "id"), ("<vertigo::dom::dom_id::DomId as std::default::Default>::default", "0")]


def fresh(cx):
    """new things get ids nothing had before"""
    for W, f in MADE:
        k = 0
        for p in cx.run(W, ["."], branches=lambda k: True):
            if p.end != "ret":
                continue
            k += 1
            t = afields(p.ret).get(f) if p.ret.op == "agg" else None
            ok = t is not None and t.op == "call" and t.a[0].endswith("::fetch_add") and t.a[2].op == "static" and t.a[3].op == "c" and 1 <= t.a[3].a[0] < 2 ** 16
            cx.ob("a-new-thing-has-a-new-id", W, ok, f"{f} = {show(t)[:160] if t is not None else show(p.ret)[:160]}")
            if ok:
                st = [e for e in p.trace if e.kind == "call" and e.args and e.args[0] is t.a[2] and not e.name.endswith("fetch_add")]
                cx.ob("a-new-thing-has-a-new-id", W, not st, "the counter is changed otherwise")
        cx.floor(f"ways through {W}", k, 1)
    # the counters are touched nowhere else
    cr = cx.crate("vertigo")
    for i in cr.insts.values():
        for n, t in cr.calls(i):
            p = t["f"].get("p") or ""
            if re.search(r"atomic::Atomic\w*(<[^>]*>)?::(store|swap|fetch_sub|compare_exchange\w*|fetch_and|fetch_or|fetch_xor|fetch_min|fetch_nand|fetch_update|fetch_max|get_mut|as_ptr)$", p):
                cx.ob("counters-only-grow", i["p"], False, p)
