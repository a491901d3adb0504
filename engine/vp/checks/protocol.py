"""S10: every call the application can make is understood by the server as that call.

The calls are read off the client's code (what DomAccess is built from), each is handed, as a value, to the server's
decoders: their control-flow paths are replayed on it (branch by branch), which leaves the paths that call can take."""
import re
from ast import literal_eval

from ..core import check
from ..q import calls, ncalls, js_calls, desc, afields, brs
from ..term import T, show
from . import ssr
from .ssr import opq, anyb

U, C = "vertigo_cli", "vertigo"
API = "vertigo::driver_module::api::"
M = ssr.S + "wasm::js_value_match::Match::"
PURE = r"::(as_str|as_slice|as_ref|deref|clone|to_string|to_owned|into|from|to_vec|borrow|iter|into_iter|as_deref|cloned|copied|into_boxed_str|unwrap_or_default_)$"


class Unknown(Exception):
    pass


class V:
    """a JsValue"""

    def __init__(self, kind, *pay):
        self.kind, self.pay = kind, pay

    def __repr__(self):
        return f"{self.kind}({', '.join(map(str, self.pay))})"

    def __eq__(self, o):
        return isinstance(o, V) and self.kind == o.kind and self.pay == o.pay

    __hash__ = None


class E:
    """a variant of any other enum, or a struct"""

    def __init__(self, kind, **pay):
        self.kind, self.pay = kind, pay

    def __repr__(self):
        return f"{self.kind}{self.pay}"

    def __eq__(self, o):
        return isinstance(o, E) and self.kind == o.kind and self.pay == o.pay

    __hash__ = None


def some(x):
    return E("Some", **{"0": x})


def ok(x):
    return E("Ok", **{"0": x})


NONE, ERR = E("None"), E("Err", **{"0": ()})


class Server:
    def __init__(self, cx):
        self.cx = cx
        self.cr = cx.crate(U)
        self.memo = {}
        self.decoders = {i["p"] for i in self.cr.insts.values() if i["p"].startswith(ssr.S) and i["argc"] == 1 and self.takes_value(i)}
        self.keep = r"Match::test_list$|from_json$|get_now$|" + "|".join(re.escape(d) + "$" for d in sorted(self.decoders))
        self.paths = {}

    def takes_value(self, i):
        ty = self.cr.types[i["locals"][1][0]]
        while ty.get("k") == "ref":
            ty = self.cr.types[ty["t"]]
        rt = self.cr.types[i["locals"][0][0]]
        return ty.get("p") == "vertigo::JsValue" and rt.get("p") in ("std::result::Result", "std::option::Option", "core::result::Result") \
            and not i["p"].startswith(M)

    # -------------------------------------------------------------- values of terms
    def ev(self, t, env):
        if t in env:
            return env[t]
        r = self.ev1(t, env)
        env[t] = r
        return r

    def ev1(self, t, env):
        ev = lambda x: self.ev(x, env)
        if t.op == "c":
            return t.a[0]
        if t.op == "str":
            return ev(t.a[0])
        if t.op == "agg":
            names, vals = t.a[2], t.a[3:]
            if t.a[0] in ("array", "vec"):
                return [ev(x) for x in vals]
            if t.a[0] == "tuple":
                return tuple(self.soft(x, env) for x in vals)
            if t.a[0].endswith("JsValue"):
                return V(t.a[1], *[self.soft(x, env) for x in vals])
            return E(t.a[1] or t.a[0], **dict(zip(names, [self.soft(x, env) for x in vals])))
        if t.op == "vf":
            x = ev(t.a[0])
            if isinstance(x, V) and x.kind == t.a[1]:
                return x.pay[int(t.a[2])]
            if isinstance(x, E) and x.kind == t.a[1] and t.a[2] in x.pay:
                return x.pay[t.a[2]]
            raise Unknown(t)
        if t.op == "f":
            x = ev(t.a[0])
            if isinstance(x, tuple) and t.a[1].isdigit() and int(t.a[1]) < len(x):
                return x[int(t.a[1])]
            if isinstance(x, E) and t.a[1] in x.pay:
                return x.pay[t.a[1]]
            raise Unknown(t)
        if t.op == "with":
            x = ev(t.a[0])
            if isinstance(x, E):
                return E(x.kind, **{**x.pay, t.a[1]: self.soft(t.a[2], env)})
            raise Unknown(t)
        if t.op == "not":
            return int(not ev(t.a[0]))
        if t.op == "cast":
            return ev(t.a[0])
        if t.op in ("at", "index") and len(t.a) == 2:
            x, i = ev(t.a[0]), ev(t.a[1])
            if isinstance(x, list) and isinstance(i, int) and i < len(x):
                return x[i]
            raise Unknown(t)
        if t.op == "bin":
            a, b = ev(t.a[1]), ev(t.a[2])
            if t.a[0] in ("Eq", "Ne") and (isinstance(a, T) or isinstance(b, T)) and a is not b:
                raise Unknown(t)
            if t.a[0] == "Eq":
                return int(a == b)
            if t.a[0] == "Ne":
                return int(a != b)
            if isinstance(a, int) and isinstance(b, int):
                return {"Lt": int(a < b), "Gt": int(a > b), "Le": int(a <= b), "Ge": int(a >= b), "Sub": a - b, "Add": a + b}.get(t.a[0]) if t.a[0] in ("Lt", "Gt", "Le", "Ge", "Sub", "Add") else self.no(t)
            raise Unknown(t)
        if t.op == "len":
            x = ev(t.a[0])
            return len(x) if isinstance(x, list) else self.no(t)
        if t.op == "proj" and str(t.a[1]).startswith("('ss'"):
            x, (_, fr, to) = ev(t.a[0]), literal_eval(t.a[1])
            return x[fr:len(x) - to] if isinstance(x, list) else self.no(t)
        if t.op == "call":
            return self.call(t, env)
        raise Unknown(t)

    def no(self, t):
        raise Unknown(t)

    def soft(self, t, env):
        try:
            return self.ev(t, env)
        except Unknown:
            return t

    def call(self, t, env):
        n, a = t.a[0], t.a[2:]
        l = n.rsplit("::", 1)[-1]
        ev = lambda x: self.ev(x, env)
        if n in ("dyn-call", "dyn"):
            return self.closure(a[0], [ev(x) for x in a[1:]])
        if n in self.decoders:
            return self.decode(n, ev(a[0]))
        if n.endswith("Match::test_list"):
            m, pat = ev(a[0]), ev(a[1])
            rest = m.pay.get("list") if isinstance(m, E) else None
            if not isinstance(rest, list) or not isinstance(pat, list):
                raise Unknown(t)
            if not rest or rest[0].kind != "List":
                return ERR
            got = rest[0].pay[0]
            if len(got) != len(pat) or not all(isinstance(p, str) and g.kind == "String" for g, p in zip(got, pat)):
                return ERR
            if any(isinstance(g.pay[0], T) for g in got):
                raise Unknown(t)
            return ok(E(m.kind, list=rest[1:])) if all(g.pay[0] == p for g, p in zip(got, pat)) else ERR
        if l == "from_json":
            return ok(E("from_json", **{"0": ev(a[0])}))
        if l in ("str", "bool") and re.search(r"JsValue::(str|bool)$", n):
            x = self.soft(a[0], env)
            return V("String", x) if l == "str" else V("True" if x else "False")
        if l == "split_first":
            x = ev(a[0])
            return some((x[0], x[1:])) if x else NONE
        if l == "split_last":
            x = ev(a[0])
            return some((x[-1], x[:-1])) if x else NONE
        if l in ("first", "last"):
            x = ev(a[0])
            return some(x[0 if l == "first" else -1]) if x else NONE
        if l == "get" and len(a) == 2:
            x, i = ev(a[0]), ev(a[1])
            if isinstance(x, list) and isinstance(i, int):
                return some(x[i]) if i < len(x) else NONE
            raise Unknown(t)
        if l == "is_empty":
            x = ev(a[0])
            if isinstance(x, list):
                return int(not x)
            raise Unknown(t)
        if l == "len":
            x = ev(a[0])
            if isinstance(x, list):
                return len(x)
            raise Unknown(t)
        if re.search(PURE, n) and len(a) == 1:
            return ev(a[0])
        own = [i for i in self.cr.insts.values() if i["p"] == n and i["argc"] == len(a)]
        if len({i["p"] for i in own}) == 1 and n.startswith(ssr.S):
            ps = [T("param", f"given {i}") for i in range(len(a))]
            rs = self.outcomes(self.run(own[0], ps, n), {q: ev(x) for q, x in zip(ps, a)})
            if len(rs) == 1 and not isinstance(rs[0], T):
                return rs[0]
        raise Unknown(t)

    # -------------------------------------------------------------- replay
    def possible(self, p, env):
        """can this path be taken by these values? (a condition on something else leaves it open)"""
        for e in p.trace:
            if e.kind != "br":
                continue
            k, w = e.args
            try:
                if k.op == "discr":
                    x = self.ev(k.a[0], env)
                    if not isinstance(x, (V, E)):
                        continue
                    v = x.kind
                else:
                    v = self.ev(k, env)
                    if isinstance(v, T):
                        continue
            except Unknown:
                continue
            if e.name == "=":
                if v != w:
                    return False
            elif str(v) in w:
                return False
        return True

    def outcomes(self, ps, env):
        out = []
        for p in ps:
            en = dict(env)
            if p.end == "ret" and self.possible(p, en):
                r = self.soft(p.ret, en)
                if isinstance(r, T) and p.ret.op == "call":
                    r = self.soft(p.ret, en)
                if not any(same(r, x) for x in out):
                    out.append(r)
        return out

    def run(self, inst, args, k):
        if k not in self.paths:
            self.paths[k] = [p for p in self.cx.run(inst, [r"^$"], unit=U, args=args, opaque=opq(self.keep), branches=anyb, exact_index=True)]
        return self.paths[k]

    def decode(self, name, value):
        inst = self.cx.fn(name, U)
        k = (name, ident(value))
        if k not in self.memo:
            arg = T("param", "the call")
            rs = self.outcomes(self.run(inst, [arg], name), {arg: value})
            if len(rs) != 1 or isinstance(rs[0], T):
                raise Unknown(T("call", name, None))
            self.memo[k] = rs[0]
        return self.memo[k]

    def closure(self, clo, args):
        if clo.op == "fn":
            inst = self.cr.insts[clo.a[1]] if clo.a[1] in self.cr.insts else self.cx.fn(clo.a[0], U)
            ps = [T("param", f"given {i}") for i in range(len(args))]
            rs = self.outcomes(self.run(inst, ps, clo.a[0]), dict(zip(ps, args)))
        else:
            inst = self.cr.insts.get(clo.a[1]) or next((i for i in self.cr.insts.values() if i["p"] == clo.a[0]), None)
            if inst is None:
                raise Unknown(clo)
            ps = [T("param", f"given {i}") for i in range(len(args))]
            rs = self.outcomes(self.run(inst, [clo] + ps, clo), dict(zip(ps, args)))
        if len(rs) != 1 or isinstance(rs[0], T):
            raise Unknown(clo)
        return rs[0]


def ident(x):
    if isinstance(x, (V, E)):
        return x.kind, ident(tuple(x.pay.items()) if isinstance(x, E) else x.pay)
    if isinstance(x, (list, tuple)):
        return tuple(ident(y) for y in x)
    return id(x) if isinstance(x, T) else repr(x)


def same(a, b):
    if isinstance(a, T) or isinstance(b, T):
        return a is b
    return type(a) is type(b) and a == b


# ------------------------------------------------------------------ what the application says
def value_of(t):
    """the JsValue an argument is: constants are themselves, what the caller gave stays a term"""
    if t.op == "agg" and t.a[0].endswith("JsValue"):
        return V(t.a[1], *[x.a[0] if x.op == "c" else x for x in t.a[3:]])
    return None


def client_calls(cx):
    """every call into JavaScript the library can make: {(how, where, method): [(function, argument terms)]}"""
    cr, out = cx.crate(C), {}
    for i in cr.insts.values():
        if not i["p"].startswith(API + "api_import::") or "DomAccess" not in str(i["blocks"]) or "DomAccess::" in i["p"]:
            continue
        cap = [T("param", "self")]
        for p in cx.run(i, [r"DomAccess::(exec|fetch|synthetic)$"], unit=C, opaque=opq("DomAccess::|CallbackStore")):
            for e, how, w, m, a in js_calls(p):
                l = out.setdefault((w, m), [])
                if not any(tuple(a) == x for _, x in l):
                    l.append((i["p"], tuple(a)))
    return out


def message(where, m, args):
    """the list a chain of DomAccess steps becomes (its steps: property B15)"""
    if (where, m) == ("", "plain_response"):
        return V("List", [V("List", [V("String", m)]), *args])
    segs = where.split(".") if where else []
    if segs[:1] == ["window"]:
        l = [V("List", [V("String", "root"), V("String", "window")])]
        segs = segs[1:]
    else:
        l = [V("List", [V("String", "api")])]
    l += [V("List", [V("String", "get"), V("String", s)]) for s in segs]
    return V("List", l + [V("List", [V("String", "call"), V("String", m), *args])])


def fetch_request(a):
    body = {"Json": "Json", "String": "Text", "Vec": "Binary"}.get(a[4].kind)
    return ("FetchRequest", {"callback_id": a[0].pay[0], "request": {
        "method": a[1].pay[0], "url": a[2].pay[0], "headers": E("from_json", **{"0": a[3].pay[0]}),
        "body": some(E(body, **{"0": a[4].pay[0]})) if body else NONE}})


def expected(key, a, url):
    """(messages to the request, answer) the server owes this call; None: nothing but an empty answer"""
    w, m = key
    if key == ("", "plain_response"):
        return [("PlainResponse", {"0": a[0].pay[0]})], None
    if key == ("dom", "dom_bulk_update"):
        return [("DomUpdate", {"0": a[0].pay[0]})], None
    if key == ("fetch", "fetch_send_request"):
        return [fetch_request(a)], None
    if key == ("historyLocation", "get"):
        return [], "url"
    if key == ("", "get_env"):
        return [], "env"
    if key == ("", "isBrowser"):
        return [], V("False")
    if key == ("window.Date", "now"):
        return [], "now"
    if key == ("interval", "timeout_set"):
        return ([("SetTimeoutZero", {"callback_id": a[1].pay[0]})] if a[0].pay[0] == 0 else []), "timer"
    return [], None


NEEDED = [("", "plain_response"), ("dom", "dom_bulk_update"), ("fetch", "fetch_send_request"), ("historyLocation", "get"), ("", "get_env"),
          ("", "isBrowser"), ("window.Date", "now"), ("interval", "timeout_set"), ("historyLocation", "add"), ("cookie", "get"), ("cookie", "set"),
          ("window.console", "error"), ("websocket", "websocket_register_callback")]


def fits(sv, got, want):
    """is this value the one owed?"""
    if isinstance(want, dict):
        pay = got.pay if isinstance(got, E) else None
        return pay is not None and set(pay) == set(want) and all(fits(sv, pay[k], want[k]) for k in want)
    return same(got, want)


@check("S10", (U, C))
def s10(cx):
    sv = Server(cx)
    test_list(cx)
    cx.floor("decoders of calls", len(sv.decoders), 6)
    cc = client_calls(cx)
    for k in NEEDED:
        cx.need(k in cc, f"the client's call {k[0]}.{k[1]} was not found")
    ways = 0
    for pm, da in ssr.imports(cx):
        ps = [p for p in ssr.crun(cx, da, [r"::send$", r"DataContext::save_value$", r"RequestState::env$"],
                                  opaque=opq(sv.keep + "|DataContext::|RequestState::env$"), branches=anyb) if p.end == "ret"]
        cx.floor("ways through the server's side", len(ps), 8)
        for key, forms in sorted(cc.items()):
            for fn, args in forms:
                ways += 1
                vals = [value_of(a) for a in args]
                where = f"{key[0]}.{key[1]}".lstrip(".")
                if not cx.ob("argument-kinds-are-known", f"{fn} ({where})", all(v is not None for v in vals), str([show(a)[:80] for a in args])):
                    continue
                cases = [vals]
                if key[0] == "interval" and key[1].endswith("_set"):
                    cases = [[V(vals[0].kind, n)] + vals[1:] for n in (0, 1, 70000)]
                for vs in cases:
                    one_call(cx, sv, ps, da, key, vs, f"{where}({', '.join(v.kind if not (v.pay and isinstance(v.pay[0], (str, int))) else f'{v.kind} {v.pay[0]!r}' for v in vs)})")
    cx.floor("calls of the application", ways, 25)
    answer_is_read_back(cx)


def one_call(cx, sv, ps, da, key, vs, where):
    msg = message(key[0], key[1], vs)
    urlcap = None
    taken = []
    for p in ps:
        env = {}
        for t in p.ret.subs() | {x for e in p.trace for a in e.args if isinstance(a, T) for x in a.subs()}:
            if t.op == "call" and t.a[0].endswith("DataContext::get_value"):
                env[t] = msg
        try:
            if sv.possible(p, env):
                taken.append((p, env))
        except RecursionError:
            raise
    if not cx.ob("some-way-for-every-call", where, bool(taken), "no path of the server's side accepts it"):
        return
    want, ans = expected(key, vs, urlcap)
    for p, env in taken:
        # undecided decoders leave a path open that should not be: what it does is then compared all the same
        got = []
        for e in calls(p, r"::send$"):
            x = sv.soft(e.args[-1], env)
            got.append(x)
        good = len(got) == len(want) and all(isinstance(g, E) and g.kind == w[0] and fits(sv, g, {k: v for k, v in w[1].items()}) for g, w in zip(got, want))
        cx.ob("understood-as-what-it-is", where, good, f"sends {[str(g)[:200] for g in got]}; owed {[w[0] for w in want]}; " + desc(p, 30)[:300])
        saves = calls(p, r"DataContext::save_value$")
        sent = sv.soft(saves[0].args[-1], env) if len(saves) == 1 else None
        if ans is None:
            fine = not saves and p.ret.op == "c" and p.ret.a[0] == 0
        else:
            fine = len(saves) == 1 and p.ret is saves[0].res
            if fine:
                fine = answered(sv, ans, sent, p, vs, env)
        cx.ob("answered-with-what-is-asked", where, fine, f"saves {[show(e.args[-1])[:120] for e in saves]}, returns {show(p.ret)[:80]}; " + desc(p, 30)[:300])


def answered(sv, ans, sent, p, vs, env):
    if not isinstance(sent, V):
        return False
    if ans == "url":
        return sent.kind == "String" and isinstance(sent.pay[0], T) and is_url(sent.pay[0])
    if ans == "env":
        ask = calls(p, r"RequestState::env$")
        if len(ask) != 1:
            return False
        name = ask[0].args[1]
        if sv.soft(name, env) is not vs[0].pay[0]:
            return False
        has = [b for k, how, b in [(x.args[0], x.name, x.args[1]) for x in p.trace if x.kind == "br"] if k.op == "discr" and k.a[0] is ask[0].res and how == "="]
        if has == ["Some"]:
            return sent.kind == "String" and sent.pay[0] is T("vf", ask[0].res, "Some", "0")
        return has == ["None"] and sent.kind == "Null"
    if ans == "now":
        return sent.kind == "I64" and isinstance(sent.pay[0], T) and millis(sent.pay[0])
    if ans == "timer":
        return sent.kind == "I32"
    return sent == ans


def millis(t):
    """the milliseconds of the present time, in full"""
    while True:
        if t.op == "cast" and t.a[2] in ("i64", "u64", "i128", "u128"):
            t = t.a[0]
        elif t.op == "vf" and t.a[1] == "Ok" or t.op == "call" and re.search(r"::(try_from|try_into|from|into|unwrap\w*)$", t.a[0]) and len(t.a) > 2:
            t = t.a[0] if t.op == "vf" else t.a[2]
        else:
            break
    return t.op == "call" and t.a[0].endswith("as_millis") and t.a[2].op == "call" and t.a[2].a[0].endswith("get_now")


def is_url(t):
    """the address of this request, as it was captured"""
    t = ssr.plain(t)
    return t.op == "f" and t.a[1] == "url" or t.op == "param" and "url" in str(t.a[0])


def answer_is_read_back(cx):
    """nothing else of the server decides what a call means: the closure the application gets is the one looked at (S02)"""
    cx.ob("one-server-side", ssr.WI + "new", len(ssr.imports(cx)) == 1)


def test_list(cx):
    """Match::test_list accepts exactly a list of exactly these words, and leaves what follows it"""
    f = M + "test_list"
    ps = cx.run(f, [r"."], unit=U, branches=anyb)
    SF = lambda t: t.op == "call" and t.a[0].endswith("split_first")
    cx.floor("ways through test_list", len(ps), 3)
    seen = set()
    for p in ps:
        if p.end != "ret":
            continue
        b = [(e.args[0], e.name, e.args[1]) for e in p.trace if e.kind == "br"]
        first = next((k.a[0] for k, h, w in b if k.op == "discr" and SF(k.a[0])), None)
        if first is None:
            cx.ob("words-compared-in-full", f, False, "no first element looked at: " + desc(p))
            continue
        cell = T("f", T("vf", first, "Some", "0"), "0")
        inner = T("vf", cell, "List", "0")
        whole = [(k, w) for k, h, w in b if k.op == "call" and k.a[0].endswith("Iterator::all") and h == "="]
        if whole and len(whole) == 1:
            good = all_words(cx, whole[0][0], inner)
            cx.ob("words-compared-in-full", f, good, show(whole[0][0])[:300])
            if good:
                b = [x for x in b if x[0] is not whole[0][0] and not (x[0].op == "bin" and word(x[0], inner)) and not (x[0].op == "discr" and x[0].a[0] in elems(inner))]
                pair = T("bin", "Eq", T("vf", T("item", inner), "String", "0"), T("item", T("param", "list_pattern")))
                nx = T("discr", T("next", whole[0][0].a[2]), "")
                b += [(nx, "=", "Some"), (pair, "=", whole[0][1])] + ([(nx, "=", "None")] if whole[0][1] else [])
        lens = [w for k, h, w in b if k.op == "bin" and k.a[0] == "Eq" and h == "=" and {x.a[2] for x in k.a[1:] if x.op == "call" and x.a[0].endswith("len")} >= {inner, T("param", "list_pattern")}]
        if p.ret.op == "agg" and p.ret.a[1] == "Ok":
            seen.add("Ok")
            rest = afields(p.ret.a[3]).get("list")
            cx.ob("leaves-what-follows", f, rest is T("f", T("vf", first, "Some", "0"), "1"), show(p.ret))
            good, open_turn = lens == [1], False
            done = False
            for k, h, w in b:
                if k.op == "discr" and k.a[0].op == "next":
                    good = good and not open_turn
                    open_turn, done = w == "Some", w == "None"
                elif k.op == "bin" and k.a[0] == "Eq" and h == "=" and word(k, inner):
                    if w == 1:
                        open_turn = False
            cx.ob("words-compared-in-full", f, good and done and not open_turn, desc(p, 30))
        else:
            seen.add("Err")
            why = any(k.op == "discr" and k.a[0] is first and w == "None" for k, h, w in b) \
                or any(k.op == "discr" and k.a[0] is cell and (h == "!" and "List" in w or h == "=" and w != "List") for k, h, w in b) \
                or 0 in lens or any(k.op == "bin" and word(k, inner) and w == 0 for k, h, w in b) \
                or any(k.op == "discr" and k.a[0] in elems(inner) and (h == "!" and "String" in w or h == "=" and w != "String") for k, h, w in b) \
                or any(k.op == "discr" and k.a[0].op == "call" and k.a[0].a[0].endswith("::get") and w == "None" for k, h, w in b)
            cx.ob("refused-for-a-reason", f, why, desc(p, 30))
    cx.ob("accepts-and-refuses", f, seen == {"Ok", "Err"}, str(seen))


def all_words(cx, t, inner):
    """the closure of an `all` over words and elements side by side says whether the element is a string equal to the word"""
    pat, dom, clo = T("param", "list_pattern"), t.a[2], t.a[3]
    if dom.op != "zip" or set(dom.a[:2]) != {pat, inner} or clo.op != "clo" or clo.a[1] is None:
        return False
    pair = T("agg", "tuple", "", ("0", "1"), T("item", dom.a[0]), T("item", dom.a[1]))
    ps = [p for p in cx.run(cx.crate(U).insts[clo.a[1]], [r"^$"], unit=U, args=[clo, pair], branches=anyb) if p.end == "ret"]
    kinds = set()
    for p in ps:
        b = [(e.args[0], e.name, e.args[1]) for e in p.trace if e.kind == "br"]
        string = any(k.op == "discr" and k.a[0] is T("item", inner) and h == "=" and w == "String" for k, h, w in b)
        eqs = [w for k, h, w in b if k.op == "bin" and word(k, inner)]
        if p.ret.op == "c" and p.ret.a[0] == 1:
            kinds.add(1)
            if not string or eqs != [1]:
                return False
        elif p.ret.op == "c" and p.ret.a[0] == 0:
            if eqs != [0] and (string or not any(k.op == "discr" and k.a[0] is T("item", inner) for k, h, w in b)):
                return False
        elif p.ret.op == "bin" and p.ret.a[0] == "Eq" and word(p.ret, inner) and string:
            kinds.add(1)
        else:
            return False
    return kinds == {1}


def elems(inner):
    pat = T("param", "list_pattern")
    out = {T("item", inner)}
    for g in [t for t in T._tab.values() if t.op == "call" and t.a[0].endswith("::get") and len(t.a) == 4 and t.a[2] is inner]:
        if g.a[3] is T("index", pat):
            out.add(T("vf", g, "Some", "0"))
    return out


def word(k, inner):
    """compares the word of the pattern with the word of the list at the same place"""
    pat = T("param", "list_pattern")
    sides = {core(x) for x in k.a[1:]}
    return T("item", pat) in sides and any(T("vf", e, "String", "0") in sides for e in elems(inner))


def core(x):
    while x.op == "call" and re.search(PURE, x.a[0]) and len(x.a) == 3:
        x = x.a[2]
    return x
