"""Small query helpers over paths and terms."""
import re
from .term import T, show


def calls(path, pat):
    rx = re.compile(pat)
    return [e for e in path.trace if e.kind in ("call", "dyn") and rx.search(e.name)]


def idx(path, pat):
    rx = re.compile(pat)
    return [i for i, e in enumerate(path.trace) if e.kind in ("call", "dyn") and rx.search(e.name)]


def brs(path):
    return [e for e in path.trace if e.kind == "br"]


def fields(t):
    """('root', [fields...]) of a field chain"""
    out = []
    while t.op in ("f", "vf"):
        out.append(t.a[1] if t.op == "f" else t.a[2])
        t = t.a[0]
    return t, out[::-1]


def has_field(t, name):
    return any(x.op == "f" and x.a[1] == name or x.op == "vf" and x.a[2] == name for x in t.subs())


def ends_field(t, name):
    """the chain ends in `name`, ignoring the wrappers of the interior-mutability cells"""
    r, fs = fields(t)
    while fs and fs[-1] in ("value", "data", "__0", "0") and fs[-1] != name:
        fs = fs[:-1]
    return bool(fs) and fs[-1] == name


def variants_on(path, adt_tail):
    """{term: variant} established on this path for discriminants of the ADT"""
    out = []
    for e in path.trace:
        if e.kind == "br" and e.args[0].op == "discr" and str(e.args[0].a[1]).endswith(adt_tail):
            out.append((e.args[0].a[0], e.args[1], e.name))
    return out


def ev(t, env):
    """evaluate an arithmetic/boolean term under {term: int}; None when it mentions anything else"""
    if t in env:
        return env[t]
    if t.op == "c":
        return t.a[0] if isinstance(t.a[0], int) else None
    if t.op == "cast":
        return ev(t.a[0], env)
    if t.op == "ovf":
        return ev(t.a[0], env)
    if t.op == "not":
        v = ev(t.a[0], env)
        return None if v is None else 1 - v
    if t.op == "bin":
        a, b = ev(t.a[1], env), ev(t.a[2], env)
        if (a is None or b is None) and t.a[0] == "Eq" and any(x.op == "agg" and x.a[0] == "tuple" for x in t.a[1:]):
            w = next(len(x.a) - 3 for x in t.a[1:] if x.op == "agg")
            part = lambda x, i: x.a[3 + i] if x.op == "agg" else T("f", x, str(i))
            vs = [ev(T("bin", "Eq", part(t.a[1], i), part(t.a[2], i)), env) for i in range(w)]
            return 0 if 0 in vs else None if None in vs else 1
        if a is None or b is None:
            return None
        o = t.a[0]
        try:
            return {"Add": a + b, "Sub": a - b, "Mul": a * b, "Eq": int(a == b), "Lt": int(a < b), "BitAnd": a & b, "BitOr": a | b,
                    "BitXor": a ^ b, "Shl": a << b if 0 <= b < 128 else None, "Shr": a >> b if 0 <= b < 128 else None,
                    "Div": a // b if b else None, "Rem": a % b if b else None}.get(o)
        except Exception:
            return None
    if t.op == "call" and t.a[0].endswith("checked_sub") or t.op == "call" and t.a[0].endswith("saturating_sub"):
        a, b = ev(t.a[2], env), ev(t.a[3], env)
        return None if a is None or b is None else max(a - b, 0)
    return None


def consistent(path, env):
    """can the branches recorded on the path all be taken when the atoms have these values?"""
    for e in path.trace:
        if e.kind != "br":
            continue
        v = ev(e.args[0], env)
        if v is None:
            continue
        w = e.args[1]
        if e.name == "=":
            if isinstance(w, int) and v != w:
                return False
        else:
            if str(v) in w:
                return False
    return True


def desc(path, n=14):
    out = []
    for e in path.trace[-n:]:
        if e.kind == "br":
            out.append(f"[{show(e.args[0])[:60]} {e.name} {e.args[1]}]")
        else:
            out.append(f"{e.name.split('::')[-1]}({', '.join(show(a)[:50] if isinstance(a, T) else str(a) for a in e.args)})@{e.loc[0].split('::')[-1]}:{e.loc[1]}")
    return " ; ".join(out)


ADDERS = ("insert", "push", "push_back", "push_front", "extend", "append", "push_str", "extend_from_slice")


def contents(path, cont, depth=0):
    """element terms a container term was given on this path, with how: ('elem', t) | ('all', t)"""
    out = []
    if cont.op == "mapped":
        if not (cont.a[1].op == "item" and cont.a[1].a[0].op == "empty"):
            out.append(("elem", cont.a[1]))
    if cont.op == "agg" and cont.a[0] in ("array", "vec"):
        out += [("elem", x) for x in cont.a[3:]]
    for e in path.trace:
        if e.kind == "call" and e.args and e.args[0] is cont:
            l = e.name.rsplit("::", 1)[-1]
            if l in ("insert", "push", "push_back", "push_front"):
                out += [("elem", x) for x in e.args[1:2]]
            elif l in ("extend", "append", "extend_from_slice"):
                x = e.args[1]
                sub = contents(path, x, depth + 1) if depth < 4 and x is not cont else []
                out += sub or [("all", x)]
    return out


def clos(t):
    """closure terms inside t"""
    return [x for x in t.subs() if x.op == "clo"]


def is_true(t):
    return t.op == "c" and t.a[0] == 1


def is_false(t):
    return t.op == "c" and t.a[0] == 0


def agg_of(t, tail, variant=None):
    return t.op == "agg" and str(t.a[0]).endswith(tail) and (variant is None or t.a[1] == variant)


def afields(t):
    return dict(zip(t.a[2], t.a[3:]))


def root_is_param(t, name=None):
    r, _ = fields(t)
    return r.op == "param" and (name is None or r.a[0] == name)


def iters(path):
    """{iterator domain: outcome of the last advance on this path}"""
    out = {}
    for e in path.trace:
        if e.kind == "br" and e.name == "=" and e.args[0].op == "discr" and e.args[0].a[0].op == "next":
            out[e.args[0].a[0].a[0]] = e.args[1]
    return out


def unfinished(path, pred=None):
    """iterations this returning path leaves before the iterator is exhausted"""
    if path.end != "ret":
        return []
    return [d for d, w in iters(path).items() if w != "None" and (pred is None or pred(d))]


def finished(path, pred=None):
    """a returning path visits everything: some iteration takes place, and none is left before it is exhausted"""
    if path.end != "ret":
        return True
    its = [(d, w) for d, w in iters(path).items() if pred is None or pred(d)]
    if not its and any(m.op == "mapped" and (pred is None or pred(m.a[0])) for e in path.trace if e.kind != "br" for a in list(e.args) + [path.ret] if isinstance(a, T) for m in a.subs()):
        return True
    if not its and any(e.kind == "br" and e.args[0].op == "call" and e.args[0].a[0].endswith("is_empty") and e.args[1] == 1 for e in path.trace):
        return True
    return bool(its) and all(w == "None" for _, w in its)


def inside(path, i):
    """names of the `through` calls event number i happens in"""
    out = []
    for e in path.trace[:i]:
        if e.kind == "enter":
            out.append(e.name)
        elif e.kind == "leave" and out:
            out.pop()
    return out


def ncalls(path, pat):
    """like calls, with each event's position"""
    rx = re.compile(pat)
    return [(i, e) for i, e in enumerate(path.trace) if e.kind in ("call", "dyn") and rx.search(e.name)]


def js_calls(path):
    """calls into JavaScript on this path: (event, how, api path, method, argument terms)"""
    out = []
    for e in path.trace:
        if e.kind != "call" or not re.search(r"DomAccess::(exec|fetch)$", e.name):
            continue
        t, where, meth, args = e.args[0], [], None, []
        while t.op == "call":
            l = t.a[0].rsplit("::", 1)[-1]
            a = t.a[2:]
            s = [str(x.a[0]) for x in a if x.op == "c"]
            if l == "call":
                meth = s[0] if s else None
                v = a[2]
                args = list(v.a[3:]) if v.op == "agg" and v.a[0] in ("array", "vec") else [] if v.op == "empty" or v.op == "call" and v.a[0].endswith("::new") else [v]
            elif l in ("get", "root"):
                where.append(s[0] if s else "?")
            elif l == "synthetic":
                meth, args = s[0] if s else None, [a[2]]
            t = a[0]
            if l == "new":
                break
        out.append((e, e.name.rsplit("::", 1)[-1], ".".join(where[::-1]), meth, args))
    return out


def rebuilt(p, t, x):
    """t is x, or the same variant of it rebuilt from its own parts (what a derived Clone does)"""
    if t is x:
        return True
    if t.op != "agg":
        return False
    known = {v for y, v, h in variants_on(p, "") if y is x and h == "="}
    if known and t.a[1] and t.a[1] not in known:
        return False
    af = afields(t)
    if not af:
        return t.a[1] in known
    return all(rebuilt(p, v, T("vf", x, t.a[1], k)) or v is T("f", x, k) for k, v in af.items())


def only_counts_up(cx, path=None, via=None):
    """ids taken from this counter never repeat: every use of it in the crate adds one"""
    cr = cx.crate()
    if via:
        found = {x.a[0] for p in cx.run(via, ["fetch_add$"]) for e in calls(p, "fetch_add$") for x in e.args[0].subs() if x.op == "static"}
        cx.ob("ids-come-from-a-counter", via, bool(found))
        for x in sorted(found):
            only_counts_up(cx, x)
        return
    users, seen = {}, 0
    for i in cr.insts.values():
        if i["p"] not in users and mentions_static(i, path):
            users[i["p"]] = i
    for u, i in sorted(users.items()):
        for p in cx.run(i, [r"Atomic\w*::\w+$"]):
            for e in calls(p, r"Atomic"):
                if e.args and T("static", path) in e.args[0].subs():
                    seen += 1
                    cx.ob("counter-only-counts-up", u, e.name.endswith("::fetch_add") and ev(e.args[1], {}) == 1, desc(p))
    cx.ob("counter-uses-seen", path, seen > 0, str(sorted(users)))


def mentions_static(inst, path):
    def walk(x):
        if isinstance(x, dict):
            return x.get("static") == path or any(walk(v) for v in x.values())
        if isinstance(x, (list, tuple)):
            return any(walk(v) for v in x) or len(x) > 1 and x[0] == "static" and x[1] == path
        return x == path
    return any(walk(b) for b in inst["blocks"])


def item(dom):
    """an element of this iteration"""
    if dom.op == "mapped":
        return dom.a[1]
    return T("item", dom)


def empty_str(t):
    return t.op == "default" or t.op == "c" and t.a[0] == "" or t.op == "empty" or t.op == "call" and t.a[0].rsplit("::", 1)[-1] in ("new", "default") and len(t.a) == 2


def seq(path, t, upto=None, depth=0):
    """what a sequence consists of, in order: ('elem', x) for single elements, ('all', s) for the whole of another sequence"""
    if depth > 6:
        return [("all", t)]
    upto = len(path.trace) if upto is None else upto
    if t.op == "call" and t.a[0].endswith("Iterator::chain"):
        return seq(path, t.a[2], upto, depth + 1) + seq(path, t.a[3], upto, depth + 1)
    out = [] if t.op in ("empty", "default") or t.op == "call" and re.search(r"::(new|default|with_capacity)$", t.a[0]) else [("all", t)]
    if t.op == "agg" and t.a[0] in ("array", "vec"):
        out = [("elem", x) for x in t.a[3:]]
    for i, e in enumerate(path.trace[:upto]):
        if e.kind != "call" or not e.args or e.args[0] is not t:
            continue
        l = e.name.rsplit("::", 1)[-1]
        if l in ("push", "push_back"):
            out.append(("elem", e.args[1]))
        elif l == "push_front" or l == "insert" and len(e.args) > 2 and ev(e.args[1], {}) == 0:
            out.insert(0, ("elem", e.args[-1]))
        elif l in ("append", "extend", "extend_from_slice"):
            out += seq(path, e.args[1], i, depth + 1)
        elif l in ("clear", "truncate", "retain", "drain", "remove", "insert", "swap", "sort", "reverse", "rotate_left", "rotate_right", "take"):
            out.append(("?", t))
    return out
