"""JavaScript bridge: callbacks, requests, timers, tasks, router, lazy cache."""
import re
from ..core import check, Anchor
from ..q import *
from ..term import T, show, havoc
from .reactive import opq, anyb, closure_tree
from .dom import closure_runs, param_of, static_init, fresh

API = "vertigo::driver_module::api::"
IMP = API + "api_import::ApiImport::"
CB = API + "callbacks::CallbackStore::"
JS = r"DomAccess::(exec|fetch)$"
OPQ = r"CallbackStore::|DomAccess::|EventEmitter::trigger|FutureBoxSend::publish|FutureBox::new"
TXN = r"Dependencies::transaction$"
# JavaScript registration -> what undoes it, and by which number
UNDO = {
    ("interval", "interval_set"): ("interval", "interval_clear", "result"),
    ("interval", "timeout_set"): ("interval", "interval_clear", "result"),
    ("hashRouter", "add"): ("hashRouter", "remove", "id"),
    ("historyLocation", "add"): ("historyLocation", "remove", "id"),
    ("websocket", "websocket_register_callback"): ("websocket", "websocket_unregister_callback", "id"),
}


def wrapped(t, variant):
    """payload of a JsValue of that variant"""
    return t.a[3] if t.op == "agg" and t.a[1] == variant and len(t.a) > 3 else None


def drop_closure(t):
    """the clean-up closure of a DropResource term"""
    if agg_of(t, "DropResource", "Fun") and agg_of(t.a[3], "Option", "Some"):
        c = t.a[3].a[3]
        return c if c.op == "clo" else None
    if t.op == "call" and t.a[0].endswith("DropResource::new") and t.a[2].op == "clo":
        return t.a[2]
    return None


def callers_of(cr, tail):
    out = set()
    for i in cr.insts.values():
        for n, t in cr.calls(i):
            p = t["f"].get("p") or ""
            if p.endswith(tail):
                out.add(i["p"])
    return out


def handed_over(t):
    """a parameter, at most converted to another type"""
    while t.op == "call" and re.search(r"::(into|to_string|to_owned|as_str|clone|from|as_ref)$", t.a[0]) and len(t.a) == 3:
        t = t.a[2]
    return t.op == "param"


def numid(t, reg):
    """t is the number of the callback id returned by the registration"""
    return reg.res is not None and t.has(T("f", reg.res, "0")) and t.op in ("f", "call")


@check("B01")
def b01(cx):
    cr = cx.crate()
    users = sorted(p for p in callers_of(cr, "CallbackStore::register") | callers_of(cr, "CallbackStore::register_with_id")
                   if not p.startswith(API + "callbacks::") and "::dom::" not in p)
    done = set()
    for u in users:
        base = u
        reg_paths = 0
        for p in cx.run(base, [JS, r"CallbackStore::register", r"DropResource::"], opaque=opq(OPQ), branches=anyb):
            regs = calls(p, r"CallbackStore::register(_with_id)?$")
            if not regs:
                continue
            if p.end != "ret" or p.ret is None:
                cx.ob("registration-returns", u, p.end == "ret", desc(p))
                continue
            reg_paths += 1
            js = js_calls(p)
            key = (js[0][2], js[0][3]) if len(js) == 1 else None
            ok = len(regs) == 1 and key in UNDO
            cx.ob("one-registration-in-javascript", u, ok, desc(p))
            if not ok:
                continue
            reg = regs[0]
            done.add(key)
            ids = [wrapped(a, "U64") for a in js[0][4]]
            cx.ob("javascript-gets-the-callback-id", u, sum(1 for x in ids if x is not None and numid(x, reg)) == 1, show(T("x", *js[0][4])))
            # what JavaScript is told besides the id is what the caller gave
            rest = [a for a, x in zip(js[0][4], ids) if x is None or not numid(x, reg)]
            cx.ob("javascript-gets-the-caller's-argument", u, all(r.op == "agg" and len(r.a) > 3 and handed_over(r.a[3]) for r in rest), show(T("x", *rest)))
            # the caller's function is what the callback runs
            fn = reg.args[1]
            cbp = [x for x in fn.subs() if x.op == "param" and x.a[0] not in ("self",)]
            cx.ob("callback-runs-the-caller's-function", u, fn.op == "clo" and bool(cbp), show(fn))
            c = drop_closure(p.ret)
            cx.ob("handle-has-a-cleanup", u, c is not None, show(p.ret))
            if c is None:
                continue
            undo = UNDO[key]
            m = 0
            for q in closure_runs(cx, c, [JS, r"DropResource::off$", "drop:", r"mem::forget$", r"ManuallyDrop::new$", r"Box::leak$"], opaque=opq(OPQ + "|DropResource::off$"), branches=anyb, drops=True):
                if q.end != "ret":
                    continue
                m += 1
                uj = js_calls(q)
                good = len(uj) == 1 and (uj[0][2], uj[0][3]) == undo[:2] and len(uj[0][4]) == 1
                if good:
                    a = uj[0][4][0]
                    if undo[2] == "id":
                        v = wrapped(a, "U64")
                        good = v is not None and numid(v, reg)
                    else:
                        v = wrapped(a, "I32")
                        known = any(x is js[0][0].res and w == "I32" and h == "=" for x, w, h in variants_on(p, "JsValue"))
                        good = v is not None and (v.has(js[0][0].res) or not known and v.op == "c")
                cx.ob("dropping-the-handle-undoes-the-registration", u, good, desc(q))
                off = [e for e in calls(q, r"DropResource::off$") if e.args[0] is T("f", reg.res, "1")]
                dr = [e for e in q.trace if e.kind == "drop" and e.args[0].has(T("f", reg.res, "1"))]
                cx.ob("dropping-the-handle-forgets-the-callback", u, (bool(off) or bool(dr) or c.has(T("f", reg.res, "1"))) and not any(a.has(T("f", reg.res, "1")) for e in calls(q, r"mem::forget$|ManuallyDrop::new$|Box::leak$") for a in e.args), desc(q))
            cx.ob("cleanup-runs", u, m > 0, "no returning path")
            # the handle of the registration lives in the clean-up, not in the registering function
            cx.ob("registration-kept-until-cleanup", u, c.has(T("f", reg.res, "1")) or c.has(reg.res), show(c))
        cx.ob("registers", u, reg_paths > 0, "no path registers a callback")
    for k in UNDO:
        cx.ob("registration-known:" + ".".join(k), "analysis", k in done, "no public function makes this registration")
    # the store: a fresh id, filed under that id, removed under that id
    only_counts_up(cx, via=CB + "register")
    for f, withid in (("register", False), ("register_with_id", True)):
        n = 0
        for p in cx.run(CB + f, ["fetch_add", r"HashMapMut::\w+$"], opaque=opq(r"HashMapMut::"), branches=anyb):
            if p.end != "ret":
                continue
            n += 1
            w = CB + f
            fa, ins = calls(p, "fetch_add"), calls(p, r"HashMapMut::insert$")
            ok = len(fa) == 1 and len(ins) == 1 and ev(fa[0].args[1], {}) == 1 and fa[0].args[0].op == "static" and len(calls(p, "HashMapMut::")) == 1
            cx.ob("filed-once-under-a-fresh-id", w, ok, desc(p))
            if not ok:
                continue
            st = static_init(cr, fa[0].args[0].a[0])
            cx.ob("ids-start-above-zero", w, st is not None and st >= 1, str(st))
            i = ins[0].args[1]
            cx.ob("id-returned-is-the-id-filed", w, i.has(fa[0].res) and agg_of(i, "CallbackId") and p.ret.op == "agg" and p.ret.a[3] is i, show(p.ret))
            v = ins[0].args[2]
            if withid:
                good = v.op == "clo"
                if good:
                    qs = [q for q in closure_runs(cx, v, ["dyn"]) if q.end == "ret"]
                    good = bool(qs) and all(len(calls(q, "dyn")) == 1 and T("param", "callback") in calls(q, "dyn")[0].args[0].subs()
                                            and calls(q, "dyn")[0].args[1] is i and calls(q, "dyn")[0].args[2].op == "param" and q.ret is calls(q, "dyn")[0].res for q in qs)
                cx.ob("filed-callback-is-the-caller's", w, good, show(v))
            else:
                cx.ob("filed-callback-is-the-caller's", w, v is T("param", "callback"), show(v))
            c = drop_closure(p.ret.a[4]) if p.ret.op == "agg" and len(p.ret.a) > 4 else None
            qs = [q for q in closure_runs(cx, c, [r"HashMapMut::\w+$"], opaque=opq("HashMapMut::")) if q.end == "ret"] if c is not None else []
            good = bool(qs) and all(len(calls(q, "HashMapMut::")) == 1 and calls(q, "HashMapMut::remove$") and calls(q, "HashMapMut::remove$")[0].args[1] is i
                                    and calls(q, "HashMapMut::remove$")[0].args[0] is ins[0].args[0] for q in qs)
            cx.ob("handle-removes-exactly-that-id", w, good, show(p.ret))
        cx.ob("store-entry-analysed", CB + f, n > 0)
    # one-shot registration
    n = 0
    for p in cx.run(CB + "register_once", [r"CallbackStore::register$", r"ValueMut::set$"], opaque=opq(r"CallbackStore::register$|ValueMut::set$")):
        if p.end != "ret":
            continue
        n += 1
        w = CB + "register_once"
        reg, sets = calls(p, "CallbackStore::register$"), calls(p, "ValueMut::set$")
        ok = len(reg) == 1 and len(sets) == 1 and agg_of(sets[0].args[1], "Option", "Some") and sets[0].args[1].a[3] is T("f", reg[0].res, "1") and p.ret is T("f", reg[0].res, "0")
        cx.ob("one-shot-keeps-its-handle", w, ok, desc(p))
        if not ok:
            continue
        cell, c = sets[0].args[0], reg[0].args[1]
        qs = [q for q in closure_runs(cx, c, ["dyn", r"ValueMut::set$"], opaque=opq(r"ValueMut::set$")) if q.end == "ret"]
        for q in qs:
            d, s = calls(q, "dyn"), calls(q, "ValueMut::set$")
            i0, i1 = idx(q, "dyn"), idx(q, "ValueMut::set$")
            good = len(d) == 1 and len(s) == 1 and agg_of(s[0].args[1], "Option", "None") and q.ret is d[0].res and d[0].args[1].op == "param" and i0[0] < i1[0]
            cx.ob("one-shot-forgets-itself-after-running-once", w, good, desc(q))
        cx.ob("one-shot-callback-analysed", w, bool(qs) and c.has(cell), show(c))
    cx.ob("one-shot-analysed", CB + "register_once", n > 0)
    # a detached timeout stays until it fires, then goes
    f = IMP + "set_timeout_and_detach"
    n = 0
    for p in cx.run(f, [r"ApiImport::timeout_set$", r"ValueMut::set$"], opaque=opq(r"timeout_set$|ValueMut::set$")):
        if p.end != "ret":
            continue
        n += 1
        ts, sets = calls(p, "timeout_set$"), calls(p, "ValueMut::set$")
        ok = len(ts) == 1 and len(sets) == 1 and ts[0].args[1] is T("param", "duration") and agg_of(sets[0].args[1], "Option", "Some") and sets[0].args[1].a[3] is ts[0].res
        cx.ob("detached-timer-kept-until-it-fires", f, ok and ts[0].args[2].has(sets[0].args[0]), desc(p))
        if not ok:
            continue
        for q in closure_runs(cx, ts[0].args[2], ["dyn", r"ValueMut::set$"], opaque=opq(r"ValueMut::set$")):
            if q.end != "ret":
                continue
            d, s = calls(q, "dyn"), calls(q, "ValueMut::set$")
            cx.ob("detached-timer-fires-once-and-goes", f, len(d) == 1 and d[0].args[0] is T("param", "callback") and len(s) == 1 and agg_of(s[0].args[1], "Option", "None"), desc(q))
    cx.ob("detached-timer-analysed", f, n > 0)
    cx.floor("functions registering callbacks", len(users), 5)


@check("B02")
def b02(cx):
    cr = cx.crate()
    f = cx.fn("vertigo::wasm_callback")
    W = [r"get_by_ptr$", r"CallbackStore::", r"Arguments::set$", r"JsValue::to_snapshot$"]
    OP = OPQ + r"|Arguments::|to_snapshot$|LocalKey|get_ptr_and_size$"
    n = zero = full = 0
    for p in cx.run(f, W, opaque=opq(OP), through=TXN, branches=anyb):
        if p.end != "ret":
            continue
        dead = any(e.args[0].op == "discr" and e.args[1] == "Err" for e in brs(p))
        cc = ncalls(p, r"CallbackStore::call$")
        if dead and not cc:
            continue     # the thread-local driver is gone
        n += 1
        w = f["p"]
        get = calls(p, "get_by_ptr$")
        ok = len(cc) == 1 and len(get) == 1
        cx.ob("callback-run-once", w, ok, desc(p))
        if not ok:
            continue
        i, e = cc[0]
        cx.ob("callback-inside-one-transaction", w, len(inside(p, i)) >= 1 and sum(1 for x in p.trace if x.kind == "enter") == 1, desc(p))
        cx.ob("callback-gets-its-id-and-argument", w, e.args[1].has(T("param", "callback_id")) and e.args[2] is get[0].res and get[0].args[1] is T("param", "value_ptr"), desc(p))
        res = e.res
        sn, st = calls(p, "to_snapshot$"), calls(p, "Arguments::set$")
        if p.ret.op == "c":
            zero += 1
            und = any(b.args[0].op == "bin" and b.args[0].a[0] == "Eq" and res in b.args[0].a[1:] and any(agg_of(y, "JsValue", "Undefined") for y in b.args[0].a[1:]) and b.args[1] == 1 or
                      b.args[0].op == "discr" and b.args[0].a[0] is res and b.args[1] == "Undefined" for b in brs(p))
            cx.ob("zero-only-for-no-result", w, p.ret.a[0] == 0 and und and not st, desc(p))
        else:
            full += 1
            ok = len(sn) == 1 and sn[0].args[0] is res and len(st) == 1 and st[0].args[1] is sn[0].res
            cx.ob("result-stored-for-javascript", w, ok, desc(p))
            gp = [x for x in p.ret.subs() if x.op == "call" and x.a[0].endswith("get_ptr_and_size")]
            packed = False
            if gp:
                P, S = T("f", gp[0], "0"), T("f", gp[0], "1")
                packed = all(ev(p.ret, {P: a, S: b}) == (a << 32) + b for a, b in ((1, 2), (0x7FFFFFFF, 17), (0xFFFFFFFF, 0xFFFFFFFF), (5, 0)))
                packed = packed and (gp[0].has(sn[0].res) if sn else False)
            cx.ob("result-packed-as-pointer-and-size", w, packed, show(p.ret))
    cx.ob("both-outcomes-analysed", f["p"], n and zero and full, f"{n} {zero} {full}")
    # looking up a callback lends it out: the store is free while it runs
    f = CB + "call"
    some = none = 0
    for p in cx.run(f, [r"HashMapMut::\w+$", "dyn"], opaque=opq("HashMapMut::"), branches=anyb):
        if p.end != "ret":
            continue
        m, d = calls(p, "HashMapMut::"), calls(p, "dyn")
        ok = len(m) == 1 and m[0].name.endswith("::get") and m[0].args[1] is T("param", "callback_id")
        cx.ob("lookup-by-the-id-given", f, ok, desc(p))
        if not ok:
            continue
        v = next((w for x, w, h in variants_on(p, "Option") if x is m[0].res and h == "="), None)
        if v == "Some":
            some += 1
            cx.ob("the-callback-found-is-run", f, len(d) == 1 and d[0].args[0] is T("vf", m[0].res, "Some", "0") and d[0].args[1] is T("param", "value") and p.ret is d[0].res, desc(p))
        else:
            none += 1
            cx.ob("an-unknown-id-is-harmless", f, not d and p.ret.op == "agg" and p.ret.a[1] == "Undefined", desc(p))
    cx.ob("lookup-analysed", f, some and none, f"{some} {none}")
    g = cx.fn("vertigo::computed::struct_mut::hash_map_mut::HashMapMut::get")
    ty = cr.ty(g["locals"][0][0])
    cx.ob("lookup-returns-a-copy", g["p"], "Option<" in ty and "&" not in ty, ty)
    # location callbacks: one transaction, the new location or empty
    for nm in ("on_hash_change", "on_history_change"):
        fp = IMP + nm
        for p in cx.run(fp, [r"CallbackStore::register$"], opaque=opq(OPQ)):
            for e in calls(p, "CallbackStore::register$"):
                kinds = set()
                for q in closure_runs(cx, e.args[1], ["dyn"], opaque=opq(OPQ), through=TXN, branches=anyb):
                    if q.end != "ret":
                        continue
                    d = ncalls(q, "dyn")
                    data = param_of(cx, e.args[1])
                    v = next((w for x, w, h in variants_on(q, "JsValue") if x is data and h == "="), "other")
                    kinds.add(v)
                    ok = len(d) == 1 and d[0][1].args[0] is T("param", "callback")
                    cx.ob("location-callback-run-once", fp, ok, desc(q))
                    if not ok:
                        continue
                    cx.ob("location-callback-in-a-transaction", fp, bool(inside(q, d[0][0])), desc(q))
                    a = d[0][1].args[1]
                    cx.ob("location-passed-on", fp, a is T("vf", data, "String", "0") if v == "String" else data not in a.subs(), show(a))
                    cx.ob("location-callback-returns-nothing", fp, q.ret.op == "agg" and q.ret.a[1] == "Undefined", show(q.ret))
                cx.ob("location-callback-analysed", fp, "String" in kinds, str(kinds))
    for nm in ("interval_set", "timeout_set"):
        fp = IMP + nm
        m = 0
        for p in cx.run(fp, [r"CallbackStore::register$"], opaque=opq(OPQ)):
            for e in calls(p, "CallbackStore::register$"):
                for q in closure_runs(cx, e.args[1], ["dyn"], opaque=opq(OPQ)):
                    if q.end == "ret":
                        m += 1
                        d = calls(q, "dyn")
                        cx.ob("timer-callback-run-once", fp, len(d) == 1 and d[0].args[0] is T("param", "callback") and q.ret.a[1] == "Undefined", desc(q))
        cx.ob("timer-callback-analysed", fp, m > 0)
    # websocket events
    fp = IMP + "websocket"
    seen = set()
    for p in cx.run(fp, [r"CallbackStore::register_with_id$"], opaque=opq(OPQ)):
        for e in calls(p, "register_with_id$"):
            data, cid = param_of(cx, e.args[1], 2), param_of(cx, e.args[1], 1)
            for q in closure_runs(cx, e.args[1], ["dyn"], opaque=opq(OPQ), branches=anyb):
                if q.end != "ret":
                    continue
                v = next((w for x, w, h in variants_on(q, "JsValue")[::-1] if x is data and h == "="), "other")
                seen.add(v)
                d = calls(q, "dyn")
                a = d[0].args[1] if len(d) == 1 and len(d[0].args) > 1 else None
                if v == "True":
                    ok = a is not None and a.op == "agg" and a.a[1] == "Connection" and a.has(cid)
                elif v == "String":
                    ok = a is not None and a.op == "agg" and a.a[1] == "Message" and a.a[3] is T("vf", data, "String", "0")
                elif v == "False":
                    ok = a is not None and a.op == "agg" and a.a[1] == "Close"
                else:
                    ok = not d
                cx.ob("websocket-event:" + str(v), fp, ok and (not d or d[0].args[0] is T("param", "callback")), desc(q))
    cx.ob("websocket-events-analysed", fp, {"True", "String", "False"} <= seen, str(seen))


@check("B03")
def b03(cx):
    f = IMP + "fetch"
    n, bodies = 0, set()
    visited = 0
    cl = set()
    for p in cx.run(f, [r"EventEmitter::trigger$", r"CallbackStore::", JS, r"(HashMap|JsJsonObjectBuilder)::insert$", "extend$|collect$|from_iter$"], opaque=opq(OPQ + r"|FetchMethod::to_str$|JsJsonObjectBuilder::insert$"), branches=lambda k: k.op == "discr" and str(k.a[1]).endswith("Option")):
        if p.end != "ret":
            continue
        n += 1
        tr, reg, js = ncalls(p, "trigger$"), ncalls(p, "CallbackStore::"), js_calls(p)
        ok = len(tr) == 1 and ends_field(tr[0][1].args[0], "on_fetch_start")
        cx.ob("start-announced-once", f, ok, desc(p))
        ok = len(reg) == 1 and reg[0][1].name.endswith("::register_once") and reg[0][1].args[1].op == "clo" and len(js) == 1 and (js[0][2], js[0][3]) == ("fetch", "fetch_send_request")
        cx.ob("request-sent-once-with-one-callback", f, ok, desc(p))
        if not ok:
            continue
        rx = reg[0][1]
        cl.add(rx.args[1])
        a = js[0][4]
        T0 = wrapped(a[0], "U64")
        cx.ob("request-carries-its-callback-id", f, T0 is not None and T0.op == "f" and T0.a[0] is rx.res or T0 is rx.res, show(a[0]))
        m = wrapped(a[1], "String") if len(a) > 1 else None
        cx.ob("request-carries-the-method", f, m is not None and m.op == "call" and m.a[0].endswith("FetchMethod::to_str") and m.a[2] is T("param", "method"), show(a[1]))
        u = wrapped(a[2], "String")
        cx.ob("request-carries-the-url", f, u is T("param", "url"), show(a[2]))
        cx.ob("request-carries-headers", f, wrapped(a[3], "Json") is not None, show(a[3]))
        H = T("param", "headers")
        given = any(x is H and w == "Some" and h == "=" for x, w, h in variants_on(p, "Option"))
        its = [d for d in iters(p) if d.has(H)]
        ins = [e for e in calls(p, r"(HashMap|JsJsonObjectBuilder)::insert$")]
        if given:
            took = any(e.kind == "br" and e.args[1] == "Some" and e.args[0].a[0].op == "next" and e.args[0].has(H) for e in brs(p) if e.args[0].op == "discr")
            cx.ob("all-headers-visited", f, bool(its) and not unfinished(p, lambda d: d.has(H)) or any(e.args[-1].has(H) for e in calls(p, "extend|collect|from_iter")), desc(p))
            if took:
                visited += 1
                cx.ob("each-header-sent-under-its-name", f, any("0" in str(fields(e.args[1])[1]) and e.args[1].has(H) and e.args[2].has(H) and e.args[1] is not e.args[2] for e in ins), desc(p))
        B = T("param", "body")
        b = a[4]
        kind = b.a[1] if b.op == "agg" else "?"
        bodies.add(kind)
        want = {"String": "Text", "Json": "Json", "Vec": "Binary"}.get(kind)
        good = kind == "Undefined" or want is not None and b.a[3] is T("vf", T("vf", B, "Some", "0"), want, "0")
        cx.ob("request-carries-the-body", f, good, show(b))
        some = [w for x, w, h in variants_on(p, "Option") if x is B and h == "="]
        cx.ob("no-body-only-when-none-given", f, (kind == "Undefined") == ("None" in some), f"{kind} {some}")
        cx.ob("caller-waits-for-this-request", f, p.ret is not None and p.ret.op == "f" and p.ret.a[1] == "1" and any(x.op == "f" and x.a[0] is p.ret.a[0] and x.a[1] == "0" for x in rx.args[1].subs()), show(p.ret))
    cx.ob("all-body-kinds-analysed", f, {"Undefined", "String", "Json", "Vec"} <= bodies, str(bodies))
    cx.floor("request paths", n, 4)
    cx.ob("headers-analysed", f, visited > 0)
    g = "vertigo::driver_module::driver::FetchMethod::to_str"
    names = {}
    for p in cx.run(g, ["-"], branches=anyb):
        v = next((w for x, w, h in variants_on(p, "FetchMethod") if h == "="), None)
        names[v] = p.ret.a[0] if p.ret is not None and p.ret.op == "c" else show(p.ret)
    cx.ob("method-names", g, len(names) == 9 and all(k == v for k, v in names.items()), str(names))
    # the callback: one answer, one stop, whatever JavaScript sends
    kinds = set()
    for c in cl:
        for p in closure_runs(cx, c, [r"EventEmitter::trigger$", r"FutureBoxSend::publish$", r"JsValueListDecoder::"], opaque=opq(OPQ + "|JsValueListDecoder::"), through=TXN, branches=anyb):
            if p.end != "ret":
                continue
            tr, pb = ncalls(p, "trigger$"), ncalls(p, "publish$")
            cx.ob("stop-announced-once", f, len(tr) == 1 and ends_field(tr[0][1].args[0], "on_fetch_stop") or len(tr) == 1 and has_field(tr[0][1].args[0], "on_fetch_stop"), desc(p, 20))
            cx.ob("every-answer-reaches-the-caller", f, len(pb) == 1, desc(p, 20))
            if len(pb) != 1 or len(tr) != 1:
                continue
            v = pb[0][1].args[1]
            g = {e.name.rsplit("::", 1)[-1]: e.res for e in calls(p, "JsValueListDecoder::get_")}
            order = [e.name.rsplit("::", 1)[-1] for e in calls(p, "JsValueListDecoder::get_")]
            failed = any(e.args[0].op == "discr" and e.args[0].a[0].op == "call" and "JsValueListDecoder" in e.args[0].a[0].a[0] and e.args[1] == "Err" for e in brs(p)) or "get_any" not in g
            if agg_of(v, "Result", "Ok"):
                st = T("vf", g.get("get_u32", v), "Ok", "0")
                rs = T("vf", g.get("get_any", v), "Ok", "0")
                body = v.a[3].a[4] if v.a[3].op == "agg" and len(v.a[3].a) > 4 else None
                k = body.a[1] if body is not None and body.op == "agg" else None
                kinds.add(k)
                src = {"Json": "Json", "Text": "String", "Binary": "Vec"}.get(k)
                ok = not failed and src is not None and v.a[3].a[3] is st and body.a[3] is T("vf", rs, src, "0")
                sc = T("vf", g.get("get_bool", v), "Ok", "0")
                ok = ok and any(e.args[0] is sc and e.args[1] == 1 for e in brs(p)) and order[:3] == ["get_bool", "get_u32", "get_any"]
                cx.ob("success-delivers-status-and-body", f, ok, show(v))
            else:
                kinds.add("Err")
                sc = T("vf", g["get_bool"], "Ok", "0") if "get_bool" in g else None
                bad = sc is not None and any(e.args[0] is sc and e.args[1] == 0 for e in brs(p))
                other = not failed and any(e.name == "!" and e.args[0].op == "discr" and g.get("get_any") is not None and e.args[0].has(g["get_any"]) and {"Json", "String", "Vec"} <= set(e.args[1]) for e in brs(p))
                cx.ob("failure-only-when-it-failed", f, agg_of(v, "Result", "Err") and (bad or failed or other), show(v) + desc(p))
    cx.ob("all-answers-analysed", f, {"Json", "Text", "Binary", "Err"} <= kinds, str(kinds))
    # the first render counts as a request
    s = cx.fn("vertigo::start_app_inner")
    n = 0
    for p in cx.run(s, [r"EventEmitter::trigger$", r"ValueMut::set$", r"flush_dom_changes$"], opaque=opq(OPQ + r"|ValueMut::set$|flush_dom_changes$|LocalKey|init_env$"), branches=anyb):
        if p.end != "ret" or any(e.args[1] == "Err" for e in brs(p)) and not calls(p, "trigger"):
            continue
        n += 1
        seq = []
        for e in p.trace:
            if e.kind == "call":
                seq.append("start" if has_field(e.args[0], "on_fetch_start") else "stop" if has_field(e.args[0], "on_fetch_stop") else e.name.rsplit("::", 1)[-1])
        cx.ob("first-render-opens-and-closes-the-gate", s["p"], seq == ["start", "set", "stop", "flush_dom_changes"], str(seq))
        st = calls(p, "ValueMut::set$")
        cx.ob("root-kept", s["p"], len(st) == 1 and agg_of(st[0].args[1], "Option", "Some") and st[0].args[1].a[3] is T("param", "root_view"), desc(p))
    cx.ob("first-render-analysed", s["p"], n > 0)


LC = "vertigo::fetch::lazy_cache::"
LOPQ = OPQ + r"|Value::(set|get)$|ValueMut::(set|get)$|RequestBuilder::call$|RequestBuilder::call::\{closure#0\}$|Driver::spawn$|is_expire$|Instant::now$|add_duration$|RequestResponse::into$|LocalKey"


def queue_seq(p):
    """busy-flag writes, request signals, spawns and value writes of a path, in order"""
    out = []
    for e in p.trace:
        if e.kind != "call":
            continue
        l = e.name.rsplit("::", 1)[-1]
        if l == "set" and "ValueMut" in e.name and ends_field(e.args[0], "queued"):
            out.append("lock" if is_true(e.args[1]) else "unlock" if is_false(e.args[1]) else "?")
        elif l == "trigger":
            out.append("start" if has_field(e.args[0], "on_fetch_start") else "stop" if has_field(e.args[0], "on_fetch_stop") else "?")
        elif l == "spawn":
            out.append("spawn")
    return out


@check("B04")
def b04(cx):
    only_counts_up(cx, via=LC + "LazyCache::new")
    cr = cx.crate()
    f = LC + "LazyCache::update"
    W = [r"EventEmitter::trigger$", r"Value(Mut)?::(set|get)$", r"Driver::spawn$", r"RequestBuilder::call$", r"RequestResponse::into$", r"add_duration$", r"is_expire$"]
    tasks, n = set(), 0
    for p in cx.run(f, W, opaque=opq(LOPQ), branches=anyb):
        if p.end != "ret":
            continue
        n += 1
        busy = [e.args[1] for e in brs(p) if e.args[0].op == "call" and e.args[0].a[0].endswith("ValueMut::get") and ends_field(e.args[0].a[2], "queued")]
        seq = queue_seq(p)
        if busy and busy[0] == 1:
            cx.ob("a-running-update-is-not-started-twice", f, seq == [], str(seq))
            continue
        cx.ob("an-update-checks-for-a-running-one", f, bool(busy), desc(p))
        cx.ob("an-update-locks-announces-and-starts-once", f, sorted(seq) == ["lock", "spawn", "start"] and seq.index("lock") < seq.index("spawn") and seq.index("start") < seq.index("spawn"), str(seq))
        for e in calls(p, "Driver::spawn$"):
            if e.args[1].op == "clo":
                tasks.add(e.args[1])
    cx.ob("update-analysed", f, n >= 2 and len(tasks) == 1, f"{n} {len(tasks)}")
    FORCE, LOAD = T("param", "force"), T("param", "with_loading")
    kinds = set()
    for c in tasks:
        for p in closure_runs(cx, c, W, opaque=opq(LOPQ), branches=anyb, through=TXN):
            if p.end != "ret":
                continue
            lock = [e.args[1] for e in brs(p) if e.args[0].op == "call" and e.args[0].a[0].endswith("ValueMut::get") and ends_field(e.args[0].a[2], "queued")]
            if lock and lock[0] == 0:
                # unreachable: the lock is taken before the task starts and only the task releases it (writers checked below)
                continue
            seq = queue_seq(p)
            cx.ob("every-update-unlocks-and-announces-its-end-once", f, seq in (["unlock", "stop"], ["stop", "unlock"]), str(seq) + desc(p, 8))
            call, into, sets = ncalls(p, r"RequestBuilder::call$"), ncalls(p, "RequestResponse::into$"), ncalls(p, r"Value::set$")
            forced = [e.args[1] for e in brs(p) if e.args[0] is FORCE]
            read = calls(p, "Value::get$")
            fresh_ = None      # does the state read say that an update is needed?
            for x, v, h in variants_on(p, "ApiResponse"):
                if h == "=" and read and x is read[-1].res:
                    if v == "Uninitialized":
                        fresh_ = True
                    else:
                        ex = [w for y, w, h2 in variants_on(p, "Option") if ends_field(y, "expiry") and h2 == "="]
                        ie = [e.args[1] for e in brs(p) if e.args[0].op == "call" and e.args[0].a[0].endswith("is_expire")]
                        fresh_ = False if "None" in ex else bool(ie[0]) if ie else None
            wanted = True if forced and forced[0] == 1 else fresh_
            if wanted is False:
                kinds.add("skip")
                cx.ob("a-fresh-value-is-kept", f, not call and not sets, desc(p))
                continue
            cx.ob("reason-for-the-request-known", f, wanted is True, desc(p))
            ok = len(call) == 1 and len(into) == 1 and call[0][0] < into[0][0]
            cx.ob("one-request-per-update", f, ok, desc(p, 20))
            if not ok:
                continue
            cx.ob("request-of-this-cache", f, ends_field(call[0][1].args[0], "request") and has_field(into[0][1].args[1], "map_response") and into[0][1].args[0].has(call[0][1].res), desc(p))
            before = [e for i, e in sets if i < call[0][0]]
            after = [e for i, e in sets if i > into[0][0]]
            load = [e.args[1] for e in brs(p) if e.args[0] is LOAD]
            want = bool(load and load[0] == 1)
            cx.ob("loading-shown-exactly-when-asked", f, len(before) == want and all(agg_of(e.args[1], "ApiResponse", "Data") and afields(e.args[1])["value"].a[1] == "Loading" and afields(e.args[1])["expiry"].a[1] == "None" for e in before), desc(p, 20))
            cx.ob("result-stored-once", f, len(after) == 1 and agg_of(after[0].args[1], "ApiResponse", "Data"), desc(p, 20))
            if len(after) != 1 or not agg_of(after[0].args[1], "ApiResponse", "Data"):
                continue
            d = afields(after[0].args[1])
            r = into[0][1].res
            res = next((v for x, v, h in variants_on(p, "Result") if x is r and h == "="), None)
            kinds.add(res)
            if res == "Ok":
                ok = agg_of(d["value"], "Resource", "Ready") and d["value"].has(T("vf", r, "Ok", "0"))
            else:
                ok = res == "Err" and agg_of(d["value"], "Resource", "Error") and d["value"].a[3] is T("vf", r, "Err", "0")
            cx.ob("stored-what-the-response-says", f, ok, show(d["value"]))
            ttl = next((v for x, v, h in variants_on(p, "Option") if ends_field(x, "ttl") and h == "="), None)
            kinds.add("ttl:" + str(ttl))
            if ttl == "None":
                ok = agg_of(d["expiry"], "Option", "None")
            else:
                ok = ttl == "Some" and agg_of(d["expiry"], "Option", "Some") and d["expiry"].a[3].op == "call" and d["expiry"].a[3].a[0].endswith("add_duration") \
                    and d["expiry"].a[3].a[2].op == "call" and d["expiry"].a[3].a[2].a[0].endswith("Instant::now") and has_field(d["expiry"].a[3].a[3], "ttl")
            cx.ob("expiry-is-now-plus-lifetime", f, ok, show(d["expiry"]))
            if ttl == "Some":
                ad = ncalls(p, "add_duration$")
                cx.ob("lifetime-counts-from-the-answer", f, bool(ad) and ad[-1][0] > call[0][0], desc(p))
    cx.ob("task-cases-analysed", f, {"skip", "Ok", "Err", "ttl:None", "ttl:Some"} <= kinds, str(kinds))
    # nobody else writes the lock
    wr = set()
    for i in cr.insts.values():
        if not i["p"].startswith("vertigo::fetch"):
            continue
        for n_, t in cr.calls(i):
            if (t["f"].get("p") or "").endswith("ValueMut::set"):
                wr.add(re.sub(r"::\{closure#\d+\}", "", i["p"]))
    cx.ob("lock-writers", LC, wr <= {f}, str(sorted(wr)))
    # reading
    g = LC + "LazyCache::get"
    n = 0
    for p in cx.run(g, [r"Value(Mut)?::(set|get)$", r"LazyCache::update$", "is_expire$"], opaque=opq(LOPQ + r"|LazyCache::update$"), branches=anyb):
        if p.end != "ret":
            continue
        n += 1
        rd, up = calls(p, r"Value::get$"), calls(p, "LazyCache::update$")
        ok = len(rd) >= 1 and rd[0].args[1] is T("param", "context")
        cx.ob("read-is-tracked", g, ok, desc(p))
        if not ok:
            continue
        st = rd[0].res
        busy = [e.args[1] for e in brs(p) if e.args[0].op == "call" and e.args[0].a[0].endswith("ValueMut::get")]
        kind = [v for x, v, h in variants_on(p, "ApiResponse") if x is st and h == "="]
        ex = [v for x, v, h in variants_on(p, "Option") if ends_field(x, "expiry") and h == "="]
        ie = [e.args[1] for e in brs(p) if e.args[0].op == "call" and e.args[0].a[0].endswith("is_expire")]
        need = "Uninitialized" in kind or "Data" in kind and "Some" in ex and ie and ie[0] == 1
        free = busy and busy[0] == 0
        if free and need:
            cx.ob("a-missing-or-expired-value-is-requested", g, len(up) == 1 and is_false(up[0].args[1]) and is_false(up[0].args[2]), desc(p))
        else:
            cx.ob("otherwise-nothing-is-requested", g, not up, desc(p))
        if "Uninitialized" in kind:
            ok = agg_of(p.ret, "Resource", "Loading")
        else:
            v = T("vf", st, "Data", "value")
            rv = [w for x, w, h in variants_on(p, "Resource") if x is v and h == "="]
            ok = p.ret is v or rv and p.ret.op == "agg" and p.ret.a[1] == rv[0] and (rv[0] == "Loading" or p.ret.a[3] is T("vf", v, rv[0], "0"))
        cx.ob("read-returns-the-stored-value", g, ok, show(p.ret))
    cx.floor("read paths", n, 4)
    for nm, want in (("forget", None), ("force_update", None)):
        w = LC + "LazyCache::" + nm
        for p in cx.run(w, [r"Value::set$", r"LazyCache::update$"], opaque=opq(LOPQ + r"|LazyCache::update$")):
            if p.end != "ret":
                continue
            s, u = calls(p, "Value::set$"), calls(p, "update$")
            if nm == "forget":
                cx.ob("forget-returns-to-the-start", w, len(s) == 1 and s[0].args[1].op == "agg" and s[0].args[1].a[1] == "Uninitialized" and not u, desc(p))
            else:
                cx.ob("force-update-forces", w, len(u) == 1 and u[0].args[1] is LOAD and is_true(u[0].args[2]) and not s, desc(p))
    w = LC + "LazyCache::new"
    for p in cx.run(w, ["-"]):
        if p.end == "ret":
            a = afields(p.ret)
            cx.ob("new-cache-is-empty-and-idle", w, agg_of(p.ret, "LazyCache") and any(x.op == "agg" and x.a[1] == "Uninitialized" for x in a["value"].subs()) and any(is_false(x) for x in a["queued"].subs())
                  and a["request"].has(T("param", "request")) and a["map_response"].has(T("param", "map_response")) and a["id"].op == "call" and a["id"].a[0].endswith("fetch_add"), show(p.ret))
    # handles of one cache share everything
    w = "<vertigo::fetch::lazy_cache::LazyCache as std::clone::Clone>::clone"
    for p in cx.run(w, ["-"]):
        if p.end == "ret":
            a = afields(p.ret)
            S = T("param", "self")
            cx.ob("clone-shares-state", w, all(a[k].has(T("f", S, k)) for k in ("id", "value", "queued", "request", "map_response")), show(p.ret))
    w = "<vertigo::fetch::lazy_cache::ApiResponse as std::clone::Clone>::clone"
    st = set()
    for p in cx.run(w, ["-"], branches=anyb):
        if p.end == "ret":
            S = T("param", "self")
            v = next((x for t, x, h in variants_on(p, "ApiResponse") if t is S and h == "="), None)
            st.add(v)
            ok = rebuilt(p, p.ret, S)
            cx.ob("copy-of-the-state-keeps-everything", w, ok, show(p.ret))
    cx.ob("copy-of-the-state-analysed", w, st == {"Uninitialized", "Data"} or st == {None}, str(st))
    w = LC + "LazyCache::to_computed"
    for p in cx.run(w, [r"Computed::from$"], opaque=opq(r"Computed::from$")):
        for e in calls(p, "Computed::from$"):
            for q in closure_runs(cx, e.args[0], [r"LazyCache::get$"], opaque=opq(r"LazyCache::get$")):
                if q.end == "ret":
                    d = calls(q, "LazyCache::get$")
                    cx.ob("computed-view-reads-the-cache", w, len(d) == 1 and q.ret is d[0].res and d[0].args[1] is param_of(cx, e.args[0]), desc(q))
    w = "vertigo::instant::Instant::is_expire"
    for p in cx.run(w, [r"instant_now$"], opaque=opq("instant_now$")):
        now = calls(p, "instant_now$")
        if p.end == "ret":
            ok = len(now) == 1
            if ok:
                N, I = now[0].res, T("f", T("param", "self"), "instant")
                ok = [ev(p.ret, {N: a, I: b}) for a, b in ((5, 9), (9, 5), (100, 99))] == [0, 1, 1]
            cx.ob("expired-means-now-is-past-it", w, ok, show(p.ret))


RT = "vertigo::router::Router::"


@check("B05")
def b05(cx):
    S = T("param", "self")
    W = [r"ApiImport::\w+$", r"Value::with_connect$", "dyn"]
    O = OPQ + r"|ApiImport::|with_connect$|Computed::get$|set_value_and_compare$|set_value$|LocalKey"
    # one kind of address per router: first value, changes and writes
    kinds = {0: "hash", 1: "history"}
    n = 0
    for p in cx.run(RT + "new", W, opaque=opq(O), branches=anyb):
        if p.end != "ret":
            continue
        n += 1
        w = RT + "new"
        H = T("param", "use_history_api")
        k = [e.args[1] for e in brs(p) if e.args[0] is H]
        api, wc = calls(p, "ApiImport::"), calls(p, "with_connect$")
        ok = len(api) == 1 and len(wc) == 1 and bool(k)
        cx.ob("one-address-source", w, ok, desc(p))
        if not ok:
            continue
        kind = kinds[k[0]]
        cx.ob("first-value-is-the-current-address", w, api[0].name.endswith(f"get_{kind}_location") and wc[0].args[0].has(api[0].res), desc(p))
        a = afields(p.ret) if p.ret.op == "agg" else {}
        cx.ob("router-keeps-its-kind", w, a.get("use_history_api") is H or ev(a.get("use_history_api", H), {H: k[0]}) == k[0], show(p.ret))
        cx.ob("route-is-that-value", w, wc[0].res in a.get("route", H).subs(), show(p.ret))
        c = wc[0].args[1]
        seen = 0
        for q in closure_runs(cx, c, [r"ApiImport::\w+$"], opaque=opq(O), branches=anyb):
            if q.end != "ret":
                continue
            kk = [e.args[1] for e in brs(q) if e.args[0] is H]
            if kk and kk[0] != k[0]:
                continue
            seen += 1
            li = calls(q, r"ApiImport::on_\w+_change$")
            cx.ob("address-read-again-when-listening-resumes", w, any(e.name.endswith(f"get_{kind}_location") for e in calls(q, "ApiImport::")), desc(q))
            ok = len(li) == 1 and li[0].name.endswith(f"on_{kind}_change") and q.ret is not None and (q.ret is li[0].res or q.ret.has(li[0].res))
            cx.ob("listens-to-the-same-address", w, ok, desc(q))
            if not ok:
                continue
            cb = clos(li[0].args[1])
            v = param_of(cx, c)
            for r in closure_runs(cx, li[0].args[1], [r"set_value_and_compare$", r"Value::set(_value)?$"], opaque=opq(O + r"|Value::set$")) if cb else ():
                if r.end == "ret":
                    s = [e for e in calls(r, "set")]
                    cx.ob("a-new-address-becomes-the-value", w, len(s) == 1 and s[0].args[0].has(v) and param_of(cx, li[0].args[1]) in s[0].args[1].subs(), desc(r))
        cx.ob("listener-analysed", w, seen > 0)
    cx.floor("router kinds", n, 2)
    for nm, val in (("new_hash_router", 0), ("new_history_router", 1), ("default", 1)):
        nm = RT + nm if nm != "default" else "<vertigo::router::Router as std::default::Default>::default"
        for p in cx.run(nm, [r"Router::new$"], opaque=opq(r"Router::new$")):
            c_ = calls(p, "Router::new$")
            cx.ob("constructor-kind", nm, len(c_) == 1 and ev(c_[0].args[0], {}) == val and p.ret is c_[0].res, desc(p))
    seen = set()
    for p in cx.run(RT + "set", W, opaque=opq(O), branches=anyb):
        if p.end != "ret":
            continue
        k = [e.args[1] for e in brs(p) if e.args[0].op == "f" and e.args[0].a[1] == "use_history_api"]
        api = calls(p, "ApiImport::")
        ok = len(api) == 1 and bool(k) and api[0].name.endswith(f"push_{kinds[k[0]]}_location") and api[0].args[1].has(T("param", "route"))
        seen |= set(k)
        cx.ob("set-pushes-to-the-same-address", RT + "set", ok, desc(p))
    cx.ob("set-analysed", RT + "set", seen == {0, 1})
    for w in (RT + "change",):
        n = 0
        for p in cx.run(w, [r"Router::set$", "dyn", r"Computed::get$"], opaque=opq(O + r"|Router::set$"), through=TXN):
            if p.end != "ret":
                continue
            n += 1
            g, d, s = ncalls(p, "Computed::get$"), ncalls(p, "dyn"), ncalls(p, "Router::set$")
            ok = len(g) == 1 and len(d) == 1 and len(s) == 1 and g[0][0] < d[0][0] < s[0][0] and all(inside(p, x[0][0]) for x in (g, d, s))
            cx.ob("change-reads-edits-and-writes-in-one-transaction", w, ok, desc(p))
            if ok:
                cx.ob("change-writes-the-edited-value", w, d[0][1].args[1].has(g[0][1].res) and s[0][1].args[0] is S and d[0][1].args[0] is T("param", "change_fn")
                      and any(x.op == "mut" and x.has(g[0][1].res) for x in s[0][1].args[1].subs()), desc(p))
        cx.ob("change-analysed", w, n > 0)
    for nm, inner in (("set", "set"), ("change", "change")):
        w = "<vertigo::router::Router as vertigo::Reactive>::" + nm
        i = [x for x in cx.crate().insts.values() if "router::Router" in x["p"] and x["p"].endswith("Reactive>::" + nm)]
        cx.need(i, "Reactive for Router: " + nm)
        for p in cx.run(i[0], [r"router::Router::(set|change)$"], opaque=opq(r"router::Router::(set|change)$")):
            c_ = calls(p, "Router::")
            cx.ob("reactive-interface-does-the-same", i[0]["p"], len(c_) == 1 and c_[0].name.endswith("Router::" + inner) and c_[0].args[1].op == "param", desc(p))
    # addresses: get/push/replace and what JavaScript is asked to do
    for nm, where, meth, val in (("get_hash_location", "hashRouter", "get", None), ("push_hash_location", "hashRouter", "push", "new_hash"),
                                 ("get_history_location", "historyLocation", "get", None), ("push_history_location", "historyLocation", "push", "new_path"),
                                 ("replace_history_location", "historyLocation", "replace", "new_hash")):
        w = IMP + nm
        n = 0
        for p in cx.run(w, [JS], opaque=opq(OPQ), branches=anyb):
            if p.end != "ret":
                continue
            n += 1
            js = js_calls(p)
            ok = len(js) == 1 and js[0][2:4] == (where, meth)
            if ok and val:
                ok = len(js[0][4]) == 1 and wrapped(js[0][4][0], "String") is T("param", val)
            elif ok:
                r = js[0][0].res
                got = any(x is r and v == "String" and h == "=" for x, v, h in variants_on(p, "JsValue"))
                ok = not js[0][4] and (p.ret is T("vf", r, "String", "0") if got else r not in p.ret.subs())
            cx.ob("address-operation:" + nm, w, ok, desc(p))
        cx.ob("address-operation-analysed", w, n > 0)
    for nm, inner in (("history_replace", "replace_history_location"), ("history_back", "history_back")):
        w = "vertigo::driver_module::driver::Driver::" + nm
        for p in cx.run(w, [r"ApiImport::\w+$"], opaque=opq("ApiImport::")):
            a = calls(p, "ApiImport::")
            cx.ob("driver-address-operation", w, len(a) == 1 and a[0].name.endswith(inner) and (nm == "history_back" or a[0].args[1] is T("param", "new_url")), desc(p))


RB = "vertigo::fetch::request_builder::"


def withs(t):
    """updates layered on a value: {field: term}"""
    out = {}
    while t.op == "with":
        out.setdefault(t.a[1], t.a[2])
        t = t.a[0]
    S = T("param", "self")
    if t.op == "agg" and t is not S:
        # rebuilt field by field: what is not the receiver's own field was changed
        af = afields(t)
        same = [k for k, v in af.items() if v is T("f", S, k)]
        if same:
            for k, v in af.items():
                if k not in same:
                    out.setdefault(k, v)
            return S, out
    return t, out


@check("B06")
def b06(cx):
    cr = cx.crate()
    B = RB + "RequestBuilder::"
    S = T("param", "self")

    def runs(w, watch=("-",), **k):
        ps = [p for p in cx.run(w, list(watch), branches=anyb, **k) if p.end == "ret"]
        cx.ob("analysed", w, bool(ps))
        return ps
    for nm, m in (("new", None), ("get", "GET"), ("post", "POST")):
        for p in runs(B + nm):
            a = afields(p.ret) if agg_of(p.ret, "RequestBuilder") else {}
            ok = bool(a) and a["url"] is T("param", "url") and a["body"].a[1] == "None" and a["ttl"].a[1] == "None" and (a["method"] is T("param", "method") if m is None else a["method"].a[1] == m) \
                and not contents(p, a["headers"]) and S not in a["headers"].subs()
            cx.ob("new-request", B + nm, ok, show(p.ret))
    for p in runs(B + "body"):
        r, w = withs(p.ret)
        cx.ob("body-set-and-nothing-else", B + "body", r is S and set(w) == {"body"} and agg_of(w["body"], "Option", "Some") and w["body"].a[3] is T("param", "body"), show(p.ret))
    for p in runs(B + "body_json"):
        r, w = withs(p.ret)
        ok = r is S and set(w) == {"body"} and agg_of(w["body"], "Option", "Some") and agg_of(w["body"].a[3], "RequestBody", "Json") and w["body"].a[3].a[3].op == "call" and w["body"].a[3].a[3].a[0].endswith("to_json") and w["body"].a[3].a[3].a[2] is T("param", "body")
        cx.ob("json-body-set-and-nothing-else", B + "body_json", ok, show(p.ret))
    for p in runs(B + "headers"):
        r, w = withs(p.ret)
        cx.ob("headers-replaced-and-nothing-else", B + "headers", r is S and set(w) == {"headers"} and w["headers"] is T("param", "headers"), show(p.ret))
    for nm, key, val in (("set_header", lambda k: k is T("param", "name"), lambda v: v is T("param", "value")),
                         ("bearer_auth", lambda k: k.op == "c" and k.a[0] == "Authorization", lambda v: v.op == "fmt" and "'Bearer '" in show(v) and v.has(T("param", "token")))):
        for p in runs(B + nm, [r"HashMap::insert$"]):
            i = calls(p, "HashMap::insert$")
            r, w = withs(p.ret)
            cx.ob("header-added-and-nothing-else", B + nm, r is S and not w and len(i) == 1 and i[0].args[0] is T("f", S, "headers") and key(i[0].args[1]) and val(i[0].args[2]), desc(p) + show(p.ret))
    for nm, par, mult in (("ttl_seconds", "seconds", 1), ("ttl_minutes", "minutes", 60), ("ttl_hours", "hours", 3600), ("ttl_days", "days", 86400)):
        for p in runs(B + nm):
            r, w = withs(p.ret)
            ok = r is S and set(w) == {"ttl"} and agg_of(w["ttl"], "Option", "Some") and w["ttl"].a[3].op == "call" and w["ttl"].a[3].a[0].endswith("Duration::from_secs") and ev(w["ttl"].a[3].a[2], {T("param", par): 7}) == 7 * mult
            cx.ob("lifetime-in-seconds", B + nm, ok, show(p.ret))
    for p in runs(B + "get_ttl"):
        cx.ob("lifetime-read", B + "get_ttl", p.ret is T("f", S, "ttl"), show(p.ret))
    # sending
    i = cx.fn(B + "call::{closure#0}")
    n = 0
    for p in cx.run(i, [r"ApiImport::fetch$"], opaque=opq(r"ApiImport::fetch$"), branches=anyb):
        if p.end != "ret":
            continue
        n += 1
        fe = calls(p, "ApiImport::fetch$")
        ok = len(fe) == 1
        if ok:
            a = fe[0].args
            ok = ends_field(a[1], "method") and ends_field(a[2], "url") and agg_of(a[3], "Option", "Some") and ends_field(a[3].a[3], "headers") and ends_field(a[4], "body")
        cx.ob("request-sent-as-built", i["p"], ok, desc(p))
        d = afields(p.ret) if agg_of(p.ret, "RequestResponse") else {}
        ok = ok and bool(d) and d["data"].op == "await" and d["data"].has(fe[0].res) and ends_field(d["url"], "url") and ends_field(d["method"], "method")
        cx.ob("response-of-that-request", i["p"], ok, show(p.ret))
    cx.ob("call-analysed", i["p"], n > 0)
    # reading the response
    R = RB + "RequestResponse::"
    D = T("f", S, "data")
    OK = T("vf", D, "Ok", "0")

    def told(t, x):
        """x itself, not something computed from it, is one of the values written into a text in t"""
        return any(f.op == "fmt" and any(x is y or isinstance(y, tuple) and x in y or isinstance(y, T) and y.op in ("str", "arg", "disp", "dbg") and y.has(x) and not any(z.op == "bin" for z in y.subs()) for y in f.a) for f in t.subs())

    def side(p):
        return next((v for x, v, h in variants_on(p, "Result") if x is D and h == "="), None)
    for p in runs(R + "status"):
        ok = agg_of(p.ret, "Option", "Some") and p.ret.a[3] is T("f", OK, "0") if side(p) == "Ok" else agg_of(p.ret, "Option", "None")
        cx.ob("status", R + "status", ok, show(p.ret))
    kinds = set()
    for p in runs(R + "into", ["dyn"]):
        d = calls(p, "dyn")
        if side(p) == "Ok":
            ok = len(d) == 1 and d[0].args[0] is T("param", "convert") and d[0].args[1] is T("f", OK, "0") and d[0].args[2] is T("f", OK, "1")
            v = next((w for x, w, h in variants_on(p, "Option") if d and x is d[0].res and h == "="), None)
            kinds.add(v)
            if ok and v == "Some":
                s = T("vf", d[0].res, "Some", "0")
                rv = next((w for x, w, h in variants_on(p, "Result") if x is s and h == "="), None)
                ok = p.ret is s or p.ret.op == "agg" and rv == p.ret.a[1] and p.ret.a[3] is T("vf", s, rv, "0")
            elif ok:
                ok = v == "None" and agg_of(p.ret, "Result", "Err") and "Unhandled response code" in show(p.ret) and told(p.ret, T("f", OK, "0"))
        else:
            kinds.add("Err")
            ok = not d and agg_of(p.ret, "Result", "Err") and p.ret.a[3] is T("vf", D, "Err", "0")
        cx.ob("response-reaches-the-handler-or-is-an-error", R + "into", ok, desc(p) + show(p.ret))
    cx.ob("response-cases-analysed", R + "into", {"Some", "None", "Err"} <= kinds, str(kinds))
    for p in runs(R + "into_data", [r"RequestResponse::into$"], opaque=opq(r"RequestResponse::into$")):
        c = calls(p, "RequestResponse::into$")
        ok = len(c) == 1 and p.ret is c[0].res and c[0].args[0] is S and c[0].args[1].op == "clo"
        cx.ob("into-data", R + "into_data", ok, desc(p))
        for q in closure_runs(cx, c[0].args[1], [r"RequestBody::into$"], opaque=opq(r"RequestBody::into$")) if ok else ():
            e = calls(q, "RequestBody::into$")
            cx.ob("into-data-decodes-the-body", R + "into_data", len(e) == 1 and e[0].args[0] is param_of(cx, c[0].args[1], 2) and agg_of(q.ret, "Option", "Some") and q.ret.has(e[0].res), show(q.ret))
    for p in runs(R + "into_error_message"):
        ok = agg_of(p.ret, "Result", "Err") and (told(p.ret, T("f", OK, "0")) and told(p.ret, T("f", OK, "1")) if side(p) == "Ok" else told(p.ret, T("vf", D, "Err", "0")))
        cx.ob("error-message-tells-all", R + "into_error_message", ok, show(p.ret))
    w = RB + "RequestBody::into"
    seen = set()
    for p in runs(w, [r"::from_json$"], opaque=opq(r"::from_json$")):
        v = next((x for t, x, h in variants_on(p, "RequestBody") if h == "="), None)
        seen.add(v)
        fj = calls(p, "from_json$")
        if v == "Json":
            ok = len(fj) == 1 and fj[0].args[0] is T("vf", S, "Json", "0")
            rv = next((x for t, x, h in variants_on(p, "Result") if fj and t is fj[0].res and h == "="), None)
            ok = ok and (p.ret is fj[0].res or p.ret.op == "agg" and p.ret.a[1] == rv and p.ret.a[3] is T("vf", fj[0].res, rv, "0"))
        else:
            ok = not fj and agg_of(p.ret, "Result", "Err")
        cx.ob("body-decoding", w, ok, desc(p) + show(p.ret))
    cx.ob("body-kinds-analysed", w, seen >= {"Json", "Text", "Binary"} or {"Json"} <= seen, str(seen))
    # every public builder step returns the builder it was given
    for m in ("request_get", "request_post"):
        w = "vertigo::driver_module::driver::Driver::" + m
        for p in runs(w):
            cx.ob("driver-request", w, agg_of(p.ret, "RequestBuilder") and afields(p.ret)["method"].a[1] == m.split("_")[1].upper() and afields(p.ret)["url"] is T("param", "url"), show(p.ret))
    # Resource: the three states never turn into one another
    for nm in ("map", "ref_map", "ref_clone"):
        w = "vertigo::fetch::resource::Resource::" + nm
        st = set()
        for p in runs(w, ["dyn"]):
            v = next((x for t, x, h in variants_on(p, "Resource") if t is S and h == "="), None)
            st.add(v)
            d = calls(p, "dyn")
            ok = p.ret.op == "agg" and p.ret.a[1] == v
            if ok and v == "Ready":
                x = T("vf", S, "Ready", "0")
                ok = p.ret.a[3] is x if nm == "ref_clone" else len(d) == 1 and d[0].args[1] is x and p.ret.a[3] is d[0].res
            elif ok and v == "Error":
                ok = p.ret.a[3] is T("vf", S, "Error", "0") and not d
            elif ok:
                ok = not d
            cx.ob("resource-" + nm, w, ok, show(p.ret))
        cx.ob("resource-states", w, st == {"Loading", "Ready", "Error"}, str(st))
    w = "<vertigo::fetch::resource::Resource as std::cmp::PartialEq>::eq"
    O, st = T("param", "other"), set()
    for p in runs(w):
        a = [x for t, x, h in variants_on(p, "Resource") if t is S and h == "="]
        b = [x for t, x, h in variants_on(p, "Resource") if t is O and h == "="]
        if a and b and a[0] == b[0]:
            st.add(a[0])
            x, y = T("vf", S, a[0], "0"), T("vf", O, b[0], "0")
            ok = ev(p.ret, {}) == 1 if a[0] == "Loading" else p.ret.has(x) and p.ret.has(y)
            # neither always equal nor always different
            cx.ob("equal-states-compare-their-contents", w, ok, desc(p) + show(p.ret))
        else:
            cx.ob("different-states-are-not-equal", w, ev(p.ret, {}) == 0, desc(p) + show(p.ret))
    cx.ob("states-compared", w, st == {"Loading", "Ready", "Error"}, str(st))
    # `?` on a resource hands the other states on unchanged
    w = "<vertigo::fetch::resource::Resource as std::ops::FromResidual>::from_residual"
    st = set()
    R_ = T("param", "residual")
    for p in runs(w):
        v = next((x for t, x, h in variants_on(p, "ResourceError") if h == "="), None)
        st.add(v)
        cx.ob("question-mark-keeps-the-state", w, p.ret.op == "agg" and p.ret.a[1] == v and (v != "Error" or p.ret.a[3] is T("vf", R_, "Error", "0")), show(p.ret))
    cx.ob("question-mark-states", w, st == {"Loading", "Error"}, str(st))
    w = "<vertigo::fetch::resource::Resource as std::ops::Try>::branch"
    st = set()
    for p in runs(w):
        v = next((x for t, x, h in variants_on(p, "Resource") if t is S and h == "="), None)
        st.add(v)
        r = p.ret
        if v == "Ready":
            ok = r.op == "agg" and r.a[1] == "Continue" and r.a[3] is T("vf", S, "Ready", "0")
        else:
            ok = r.op == "agg" and r.a[1] == "Break" and r.a[3].op == "agg" and r.a[3].a[1] == v and (v != "Error" or r.a[3].a[3] is T("vf", S, "Error", "0"))
        cx.ob("question-mark-takes-only-a-ready-value", w, ok, show(r))
    cx.ob("question-mark-cases", w, st == {"Loading", "Ready", "Error"}, str(st))


@check("B07")
def b07(cx):
    cr = cx.crate()
    M = "vertigo::driver_module::utils::futures_spawn::"
    W = [r"Rc as std::clone::Clone>::clone$", r"Rc::(into_raw|from_raw|increment_strong_count|decrement_strong_count)$", r"std::mem::(drop|forget)$", "drop:", r"ManuallyDrop::(new|drop)$",
         r"Task::wake_by_ref$", r"Task::into_raw_waker$", r"Rc::new$"]
    OP = r"Task::wake_by_ref$|Task::into_raw_waker$|set_timeout_and_detach$|ValueMut::"
    f = M + "Task::into_raw_waker"
    table = None
    for p in cx.run(f, W, drops=True):
        if p.end != "ret":
            continue
        r = p.ret
        ok = r.op == "call" and r.a[0].endswith("RawWaker::new") and r.a[2] is T("param", "this") and len(calls(p, "Rc::into_raw$")) == 1 and not [e for e in p.trace if e.kind == "drop"]
        cx.ob("waker-owns-one-reference-to-the-task", f, ok, desc(p))
        v = r.a[3] if ok else None
        if v is not None and v.op == "call" and v.a[0].endswith("RawWakerVTable::new"):
            table = [x for x in v.a[2:] if x.op == "fn"]
    cx.need(table and len(table) == 4, "waker vtable not found")
    want = [("clone", 1, 0), ("wake", -1, 1), ("wake_by_ref", 0, 1), ("drop", -1, 0)]
    for (what, refs, wakes), fnt in zip(want, table):
        n = 0
        inst = cr.insts[fnt.a[1]] if fnt.a[1] in cr.insts else cx.fn(fnt.a[0])
        for p in cx.run(inst, W, opaque=opq(OP), drops=True, branches=anyb):
            if p.end != "ret":
                cx.ob("waker-operation-returns:" + what, f, False, desc(p))
                continue
            n += 1
            frm = calls(p, "Rc::from_raw$")
            md = {e.args[0] for e in calls(p, "ManuallyDrop::new$")}
            net = len(calls(p, r"Clone>::clone$")) + len(calls(p, "increment_strong_count$"))
            net -= len(calls(p, "decrement_strong_count$"))
            net -= sum(1 for e in calls(p, "std::mem::drop$") if e.args[0] is T("param", "ptr"))
            net -= sum(1 for e in p.trace if e.kind == "drop" and e.name.endswith("rc::Rc") and e.args[0] is T("param", "ptr"))
            cx.ob("waker-reference-count:" + what, f, net == refs, f"net {net}, contract {refs}; " + desc(p))
            w = calls(p, "Task::wake_by_ref$")
            cx.ob("waker-schedules-the-task:" + what, f, len(w) == wakes and all(e.args[0] is T("param", "ptr") for e in w), desc(p))
            if what == "clone":
                cx.ob("cloned-waker-is-for-the-same-task", f, p.ret.op == "call" and p.ret.a[0].endswith("into_raw_waker") and p.ret.a[2] is T("param", "ptr"), show(p.ret))
            for e in frm:
                cx.ob("waker-pointer-comes-back-as-the-task", f, e.args[0] is T("param", "ptr"), desc(p))
        cx.ob("waker-operation-analysed:" + what, f, n > 0)
    # spawning: the future is stored with its own waker, then the task is scheduled once
    f = M + "Task::spawn"
    n = 0
    for p in cx.run(f, W + ["ValueMut::", r"Waker::from_raw$", "Pin::"], opaque=opq(OP), drops=True, branches=anyb):
        if p.end != "ret":
            continue
        n += 1
        st, wk, mk = ncalls(p, "ValueMut::set$"), ncalls(p, "Task::wake_by_ref$"), calls(p, "Task::into_raw_waker$")
        ok = len(st) == 1 and len(wk) == 1 and len(mk) == 1 and st[0][0] < wk[0][0] and len(calls(p, "Rc::new$")) <= 1
        cx.ob("task-stored-then-scheduled-once", f, ok, desc(p))
        if not ok:
            continue
        v = st[0][1].args[1]
        this = wk[0][1].args[0]
        inner = afields(v.a[3]) if agg_of(v, "Option", "Some") and v.a[3].op == "agg" else {}
        cx.ob("task-keeps-the-spawned-future", f, inner.get("future") is T("param", "future"), show(v))
        cx.ob("task-polled-with-its-own-waker", f, "waker" in inner and inner["waker"].has(mk[0].res) and mk[0].args[0] is this, show(v))
        cx.ob("task-stored-is-the-task-scheduled", f, this.has(st[0][1].args[0]), desc(p))
    cx.ob("spawn-analysed", f, n > 0)
    f = M + "Task::wake_by_ref"
    n = 0
    for p in cx.run(f, [r"set_timeout_and_detach$"], opaque=opq(OP), branches=anyb):
        if p.end != "ret":
            continue
        n += 1
        s = calls(p, "set_timeout_and_detach$")
        ok = len(s) == 1 and ev(s[0].args[1], {}) == 0
        cx.ob("waking-schedules-one-run-without-delay", f, ok, desc(p))
        if not ok:
            continue
        m = 0
        for q in closure_runs(cx, s[0].args[2], [r"Task::run$", "ValueMut::"], opaque=opq(r"Task::run$|ValueMut::")):
            if q.end == "ret":
                m += 1
                r = calls(q, r"Task::run$|ValueMut::change$")
                cx.ob("scheduled-run-is-of-the-woken-task", f, len(r) == 1 and r[0].args[0].has(T("param", "this")), desc(q))
        cx.ob("scheduled-run-analysed", f, m > 0)
    cx.ob("wake-analysed", f, n > 0)
    f = M + "Task::run"
    n, kinds = 0, set()
    for p in cx.run(f, ["ValueMut::"], opaque=opq(OP)):
        for e in calls(p, "ValueMut::change$"):
            if e.args[1].op != "clo":
                continue
            b = param_of(cx, e.args[1], 1)
            for q in closure_runs(cx, e.args[1], [r"Future::poll$", r"Context::from_waker$", r"from_waker"], branches=anyb, stores=lambda a, v: True):
                if q.end != "ret":
                    continue
                n += 1
                some = next((w for x, w, h in variants_on(q, "Option") if x is b and h == "="), None)
                po = calls(q, r"Future::poll$")
                st = [x for x in q.trace if x.kind == "store" and x.args[0] is b]
                if some == "None":
                    kinds.add("gone")
                    cx.ob("a-finished-task-is-not-polled-again", f, not po and not st, desc(q))
                    continue
                ok = len(po) == 1
                cx.ob("a-live-task-is-polled-once-per-run", f, ok, desc(q))
                if not ok:
                    continue
                cx.ob("polled-with-the-task's-waker", f, po[0].args[0] is T("f", T("vf", b, "Some", "0"), "future") and po[0].args[1].has(T("f", T("vf", b, "Some", "0"), "waker")), desc(q))
                rdy = next((w for x, w, h in variants_on(q, "Poll") if x is po[0].res and h == "="), None)
                kinds.add(rdy)
                cx.ob("a-task-is-dropped-exactly-when-it-finishes:" + str(rdy), f, (len(st) == 1 and agg_of(st[0].args[1], "Option", "None")) if rdy == "Ready" else (rdy == "Pending" and not st), desc(q))
    cx.ob("run-analysed", f, kinds == {"gone", "Ready", "Pending"}, str(kinds))
    # the executor behind Driver::spawn runs every future handed over
    f = "vertigo::driver_module::driver::Driver::spawn"
    for p in cx.run(f, ["dyn", r"Task::spawn$"], opaque=opq(r"Task::spawn$"), branches=anyb):
        if p.end == "ret":
            d = calls(p, "dyn|Task::spawn$")
            cx.ob("spawned-future-handed-to-the-executor", f, len(d) == 1 and ends_field(d[0].args[0], "spawn_executor") and d[0].args[1] is T("param", "future"), desc(p))
    m = 0
    for p in cx.run(M + "spawn_local", [r"Task::spawn$"], opaque=opq(r"Task::spawn$"), branches=anyb):
        if p.end == "ret":
            m += 1
            d = calls(p, r"Task::spawn$")
            cx.ob("executor-spawns-one-task", M + "spawn_local", len(d) == 1 and d[0].args[1] is T("param", "future"), desc(p))
    cx.ob("executor-analysed", M + "spawn_local", m > 0)
    m = 0
    di = cx.fn("vertigo::driver_module::driver::DriverInner::new")
    for i in closure_tree(cr, di):
        inst = cr.insts[i]
        if inst is di or not any(re.search(r"spawn_local$|Task::spawn$", t["f"].get("p") or "") for n, t in cr.calls(inst)):
            continue
        qs = [q for q in cx.run(inst, [r"Task::spawn$"], opaque=opq(r"Task::spawn$"), branches=anyb) if q.end == "ret"]
        m += 1
        ok = bool(qs) and all(len(calls(q, "Task::spawn$")) == 1 and calls(q, "Task::spawn$")[0].args[1] is T("param", param_names(inst)[1]) for q in qs)
        cx.ob("executor-is-the-task-executor", di["p"], ok, "; ".join(desc(q) for q in qs)[:300])
    cx.ob("executor-installed", di["p"], m == 1, f"{m} closures spawn tasks")
    # callback -> future
    F = "vertigo::future_box::"
    f = F + "FutureBox::new"
    for p in cx.run(f, [r"Rc::new$"], branches=anyb):
        if p.end == "ret":
            s, b = (p.ret.a[3], p.ret.a[4]) if p.ret.op == "agg" and len(p.ret.a) == 5 else (None, None)
            ok = s is not None and s.op == "agg" and b.op == "agg" and s.a[3] is b.a[3] and len(calls(p, "Rc::new$")) == 1
            cx.ob("sender-and-future-share-one-cell", f, ok, show(p.ret))
    f = F + "FutureBoxSend::publish"
    kinds = set()
    for p in cx.run(f, [r"Cell::(set|take|replace)$", r"Waker::wake(_by_ref)?$"], branches=anyb):
        if p.end != "ret":
            continue
        se = [(i, e) for i, e in ncalls(p, r"Cell::(set|replace)$") if ends_field(e.args[0], "result")]
        wk = ncalls(p, r"Waker::wake")
        tk = [e for i, e in ncalls(p, r"Cell::(take|replace|set)$") if ends_field(e.args[0], "waker")]
        ok = len(se) == 1 and agg_of(se[0][1].args[1], "Option", "Some") and se[0][1].args[1].a[3] is T("param", "result")
        cx.ob("published-value-stored", f, ok, desc(p))
        v = next((w for x, w, h in variants_on(p, "Option") if has_field(x, "waker") and h == "="), None)
        kinds.add(v)
        if v == "Some":
            cx.ob("waiting-task-woken-after-the-value-is-there", f, ok and len(wk) == 1 and has_field(wk[0][1].args[0], "waker") and se[0][0] < wk[0][0], desc(p))
        else:
            cx.ob("nobody-woken-when-nobody-waits", f, v == "None" and not wk, desc(p))
        cx.ob("waker-used-once", f, len(tk) == 1 or bool(calls(p, "wake_by_ref")), desc(p))
    cx.ob("publish-analysed", f, kinds == {"Some", "None"}, str(kinds))
    pf = [i for i in cr.insts.values() if re.search(r"FutureBox as .*Future>::poll$", i["p"])]
    cx.need(pf, "FutureBox::poll not found")
    kinds = set()
    for p in cx.run(pf[0], [r"Cell::(set|take|replace)$"], branches=anyb):
        if p.end != "ret":
            continue
        v = next((w for x, w, h in variants_on(p, "Option") if has_field(x, "result") and h == "="), None)
        se = [e for e in calls(p, r"Cell::(set|replace)$") if ends_field(e.args[0], "waker")]
        rs = [e for e in calls(p, r"Cell::set$") if ends_field(e.args[0], "result")]
        kinds.add(v)
        if v == "Some":
            ok = p.ret.op == "agg" and p.ret.a[1] == "Ready" and p.ret.a[3].op == "vf" and p.ret.a[3].a[1] == "Some" and has_field(p.ret.a[3], "result") and not rs
            cx.ob("a-published-value-is-delivered", pf[0]["p"], ok, desc(p) + show(p.ret))
        else:
            ok = p.ret.op == "agg" and p.ret.a[1] == "Pending" and len(se) == 1 and agg_of(se[0].args[1], "Option", "Some") and se[0].args[1].has(T("param", "cx"))
            cx.ob("a-pending-poll-registers-the-caller", pf[0]["p"], v == "None" and ok, desc(p) + show(p.ret))
    cx.ob("poll-analysed", pf[0]["p"], kinds == {"Some", "None"}, str(kinds))


NUM = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128"]


def bare(t):
    """without conversions of a number to at least as wide a type (floats count as widest)"""
    wide = {n: (int(n[1:]) if n[1:].isdigit() else 64) for n in NUM + ["isize", "usize"]}
    least = None
    while t.op == "cast":
        if t.a[1] != t.a[2]:
            to, frm = wide.get(t.a[2], 999), wide.get(t.a[1], 64 if t.a[1] in ("f32", "f64") else 999)
            if to < frm:
                return t
        t = t.a[0]
    return t


def lit(t):
    return t.op == "c"


# function -> (api path, method, [(variant, parameter)], {variant of the answer: result}, default)
READS = {
    "utc_now": ("window.Date", "now", [], {"I64": "same", "F64": "same"}, 0),
    "instant_now": ("window.Date", "now", [], {"I64": "same", "F64": "same"}, 0),
    "timezone_offset": ("", "getTimezoneOffset", [], {"I32": -60}, 0),
    "get_random": ("", "getRandom", [("U32", "min"), ("U32", "max")], {"I32": "same"}, T("param", "min")),
    "is_browser": ("", "isBrowser", [], {"True": 1, "False": 0}, 0),
    "get_env": ("", "get_env", [("String", "name")], {"String": "some", "Null": None}, None),
    "cookie_get": ("cookie", "get", [("String", "cname")], {"String": "same"}, ""),
    "cookie_get_json": ("cookie", "get_json", [("String", "cname")], {"Json": "same", "Null": "null"}, "null"),
    "get_hash_location": ("hashRouter", "get", [], {"String": "same"}, ""),
    "get_history_location": ("historyLocation", "get", [], {"String": "same"}, ""),
}
# function -> (api path, method, [(variant, parameter)], only in: browser/server/anywhere)
WRITES = {
    "cookie_set": ("cookie", "set", [("String", "cname"), ("String", "cvalue"), ("U64", "expires_in")], "browser"),
    "cookie_set_json": ("cookie", "set_json", [("String", "cname"), ("Json", "cvalue"), ("U64", "expires_in")], "any"),
    "push_hash_location": ("hashRouter", "push", [("String", "new_hash")], "any"),
    "push_history_location": ("historyLocation", "push", [("String", "new_path")], "any"),
    "replace_history_location": ("historyLocation", "replace", [("String", "new_hash")], "any"),
    "history_back": ("window.history", "back", [], "any"),
    "websocket_send_message": ("websocket", "websocket_send_message", [("U64", "callback_id"), ("String", "message")], "any"),
    "dom_bulk_update": ("dom", "dom_bulk_update", [("Json", "value")], "any"),
}
DELEGATES = ["cookie_get", "cookie_get_json", "cookie_set", "cookie_set_json", "history_back", "utc_now", "timezone_offset", "get_random", "websocket", "is_browser"]


def args_match(cx, f, args, want):
    """each argument is the parameter at that position, wrapped in that variant"""
    n = cx.fn(f)
    names = [T("param", nm) for nm in param_names(n)]
    ok = len(args) == len(want)
    for i, (a, (var, _)) in enumerate(zip(args, want)):
        v = wrapped(a, var)
        ok = ok and v is not None and v is names[i + 1]
    return ok


def param_names(inst):
    out = []
    for i in range(1, inst["argc"] + 1):
        l = inst["locals"][i]
        out.append(l[1] if len(l) > 1 and l[1] else f"arg{i}")
    return out


@check("B08")
def b08(cx):
    cr = cx.crate()
    access_segments(cx)
    sides = {}
    for nm, (api, meth, args, cases, dflt) in READS.items():
        f = IMP + nm
        seen = set()
        for p in cx.run(f, [JS], opaque=opq(OPQ + "|PanicMessage"), branches=anyb):
            if p.end != "ret":
                cx.ob("reading-never-fails", f, False, desc(p))
                continue
            js = js_calls(p)
            me = [j for j in js if (j[2], j[3]) == (api, meth)]
            rest = [j for j in js if j not in me]
            guard = [j for j in rest if (j[2], j[3]) == ("", "isBrowser") and nm == "cookie_get_json"]
            cx.ob("asks-only-what-it-is-for", f, len(rest) == len(guard) and len(me) <= 1, desc(p))
            if not me:
                # only on the server, where there is nothing to read
                srv = guard and not any(x is guard[0][0].res and w == "True" and h == "=" for x, w, h in variants_on(p, "JsValue"))
                cx.ob("value-read-from-javascript", f, bool(srv), desc(p))
                cx.ob("nothing-to-read-gives-the-default", f, is_default(p.ret, dflt), show(p.ret))
                continue
            e, how, _, _, a = me[0]
            cx.ob("value-read-from-javascript", f, how == "fetch", desc(p))
            cx.ob("asks-with-the-caller's-arguments", f, args_match(cx, f, a, args), show(T("x", *a)))
            r = e.res
            hit = [w for x, w, h in variants_on(p, "JsValue") if x is r and h == "="]
            if any(b.args[0].op == "bin" and b.args[0].a[0] == "Eq" and r in b.args[0].a[1:] and b.args[1] == 1 and any(agg_of(y, "JsValue", "Null") for y in b.args[0].a[1:]) for b in brs(p)):
                if hit and hit[-1] != "Null":
                    continue     # contradictory: equal to null and another variant
                hit = ["Null"]
            v = hit[-1] if hit else "other"
            seen.add(v)
            want = cases.get(v, ("default",))
            pay = T("vf", r, v, "0")
            ret = p.ret
            if want == "same":
                ok = bare(ret) is pay
            elif want == "some":
                ok = agg_of(ret, "Option", "Some") and ret.a[3] is pay
            elif want is None:
                ok = agg_of(ret, "Option", "None")
            elif want == "null":
                ok = is_default(ret, "null")
            elif want == ("default",):
                ok = is_default(ret, dflt)
            elif nm == "timezone_offset":
                ok = all(ev(ret, {pay: k}) == want * k for k in (0, 60, -120, 330))
            else:
                ok = ev(ret, {}) == want or ret.op == "c" and int(ret.a[0]) == want
            cx.ob("answer:" + v, f, ok, show(ret))
        cx.ob("answers-analysed", f, set(cases) - {"Null", "False"} <= seen and "other" in seen, str(seen))
        sides[nm] = seen
    for nm, (api, meth, args, side) in WRITES.items():
        f = IMP + nm
        n = 0
        for p in cx.run(f, [JS], opaque=opq(OPQ + "|PanicMessage"), branches=anyb):
            if p.end != "ret":
                cx.ob("writing-never-fails", f, False, desc(p))
                continue
            js = [j for j in js_calls(p) if (j[2], j[3]) != ("", "isBrowser")]
            br = next((w == "True" and h == "=" for x, w, h in variants_on(p, "JsValue")), None)
            if side == "browser" and br is False:
                cx.ob("only-in-the-browser", f, not js, desc(p))
                continue
            n += 1
            ok = len(js) == 1 and (js[0][2], js[0][3], js[0][1]) == (api, meth, "exec")
            cx.ob("written-once", f, ok, desc(p))
            cx.ob("written-with-the-caller's-arguments", f, ok and args_match(cx, f, js[0][4], args), desc(p))
        cx.ob("write-analysed", f, n > 0)
    D = "vertigo::driver_module::driver::Driver::"
    for nm in DELEGATES:
        f = D + nm
        for p in cx.run(f, ["ApiImport::"], opaque=opq("ApiImport::")):
            c = calls(p, "ApiImport::")
            names = [T("param", x) for x in param_names(cx.fn(f))]
            ok = p.end == "ret" and len(c) == 1 and c[0].name.endswith("::" + nm) and list(c[0].args[1:]) == names[1:] and (p.ret is c[0].res or p.ret.op == "agg")
            cx.ob("driver-passes-it-on", f, ok, desc(p))
    for nm, to, names in (("history_replace", "replace_history_location", None), ("env", "get_env", None), ("set_interval", "interval_set", None)):
        f = D + nm
        for p in cx.run(f, ["ApiImport::"], opaque=opq("ApiImport::")):
            c = calls(p, "ApiImport::")
            ps = [T("param", x) for x in param_names(cx.fn(f))]
            ok = p.end == "ret" and len(c) == 1 and c[0].name.endswith("::" + to) and len(c[0].args) == len(ps) and all(a.has(b) for a, b in zip(c[0].args[1:], ps[1:]))
            cx.ob("driver-passes-it-on", f, ok and (p.ret is c[0].res or nm == "history_replace"), desc(p))
    f = D + "is_server"
    for p in cx.run(f, ["ApiImport::is_browser$"], opaque=opq("ApiImport::is_browser")):
        b = calls(p, "is_browser$")
        cx.ob("server-is-not-browser", f, len(b) == 1 and ev(p.ret, {b[0].res: 0}) == 1 and ev(p.ret, {b[0].res: 1}) == 0, show(p.ret))
    # sleep: one timer with the given time, the future completes when it fires
    f = D + "sleep"
    n = 0
    for p in cx.run(f, ["set_timeout_and_detach$", r"FutureBox::new$"], opaque=opq("ApiImport::|FutureBox::new|publish$")):
        if p.end != "ret":
            continue
        n += 1
        t, b = calls(p, "set_timeout_and_detach$"), calls(p, "FutureBox::new$")
        ok = len(t) == 1 and len(b) == 1 and t[0].args[1] is T("param", param_names(cx.fn(f))[1]) and p.ret is T("f", b[0].res, "1")
        cx.ob("sleep-waits-the-time-given", f, ok, desc(p))
        if not ok:
            continue
        qs = [q for q in closure_runs(cx, t[0].args[2], ["publish$"], opaque=opq("publish$")) if q.end == "ret"]
        cx.ob("sleep-ends-when-the-timer-fires", f, bool(qs) and all(len(calls(q, "publish$")) == 1 and calls(q, "publish$")[0].args[0] is T("f", b[0].res, "0") for q in qs), show(t[0].args[2]))
    cx.ob("sleep-analysed", f, n > 0)
    # a random element
    f = D + "get_random_from"
    some = none = 0
    lst = T("param", "list")
    for p in cx.run(f, ["ApiImport::get_random$", "index", "::get$"], opaque=opq("ApiImport::"), branches=anyb, exact_index=True):
        g = calls(p, "ApiImport::get_random$")
        if p.end != "ret":
            # only the slice's own bounds check may fail: the answer of JavaScript is out of the range asked for
            cx.ob("random-element-in-range", f, len(g) == 1, desc(p))
            continue
        ln = [s for e in p.trace for a in e.args if isinstance(a, T) for s in a.subs() if s.op in ("len", "call") and lst in s.a and ("len" in str(s.op) or s.a[0].endswith("::len"))]
        L = ln[0] if ln else None
        emp = [s for e in brs(p) for s in e.args[0].subs() if s.op == "call" and s.a[0].endswith("::is_empty") and lst in s.a]
        if emp and L is None:
            L = T("len?", lst)
        # `is_empty` is the same question as "length zero"
        size = lambda k: {L: k, **{x: int(k == 0) for x in emp}}
        if agg_of(p.ret, "Option", "None"):
            none += 1
            cx.ob("no-element-only-from-an-empty-list", f, not g and L is not None and consistent(p, size(0)) and not consistent(p, size(1)) and not consistent(p, size(7)), desc(p))
        else:
            some += 1
            ok = len(g) == 1 and L is not None and not consistent(p, size(0))
            ok = ok and ev(bare(g[0].args[-2]), {}) == 0 and all(ev(bare(g[0].args[-1]), {L: k}) == k - 1 for k in (1, 2, 9))
            cx.ob("random-index-over-the-whole-list", f, ok, desc(p))
            cx.ob("random-element-is-at-that-index", f, bool(g) and any(
                s.op in ("at", "call") and lst in s.a and ev(s.a[-1], {g[0].res: 3}) == 3 for s in p.ret.subs()), show(p.ret))
    cx.ob("random-element-analysed", f, some and none, f"{some} {none}")
    # clock
    I = "vertigo::instant::Instant::"
    now = "instant_now$"
    for nm in ("now", "refresh"):
        for p in cx.run(I + nm, [now], opaque=opq("ApiImport::instant_now")):
            g = calls(p, now)
            ok = p.end == "ret" and len(g) == 1 and p.ret.op == "agg" and afields(p.ret).get("instant") is g[0].res
            cx.ob("an-instant-holds-the-current-time", I + nm, ok, show(p.ret) if p.ret is not None else p.end)
    mine = T("f", T("param", "self"), "instant")
    for nm, div in (("elapsed", 1), ("seconds_elapsed", 1000)):
        for p in cx.run(I + nm, [now], opaque=opq("ApiImport::instant_now"), branches=anyb):
            g = calls(p, now)
            if p.end != "ret":
                cx.ob("time-measurement-never-fails", I + nm, False, desc(p))
                continue
            r = g[0].res if len(g) == 1 else None
            if any(s.op == "call" and s.a[0].endswith("checked_sub") for s in p.ret.subs()) or any(x.op == "call" and x.a[0].endswith("checked_sub") for x, v, h in variants_on(p, "Option")):
                # the checked difference: there when the clock went forward, zero otherwise
                cs = next(x for x, v, h in variants_on(p, "Option") if x.op == "call" and x.a[0].endswith("checked_sub"))
                v = next(v for x, v, h in variants_on(p, "Option") if x is cs)
                good = r is not None and cs.a[2] is r and cs.a[3] is mine
                dif = T("vf", cs, "Some", "0")
                cx.ob("elapsed-is-the-difference", I + nm, good and (all(ev(p.ret, {dif: k}) == k // div for k in (0, 999, 12000)) if v == "Some" else ev(p.ret, {}) == 0), desc(p) + show(p.ret))
                continue
            sat = any(s.op == "call" and re.search(r"(saturating|checked)_sub$|abs_diff$", s.a[0]) for s in p.ret.subs()) or not any(s.op == "bin" and s.a[0] == "Sub" for s in p.ret.subs())
            cmp = [b for b in brs(p) if b.args[0].op == "bin"]
            cx.ob("a-clock-set-back-does-not-underflow", I + nm, sat or bool(cmp), show(p.ret))
            env = [(5000, 2000), (12345, 345), (7, 7)]
            ok = r is not None and all(not consistent(p, {r: a, mine: b}) or ev(p.ret, {r: a, mine: b}) == (a - b) // div for a, b in env)
            back = [(2000, 5000)]
            ok2 = r is not None and all(not consistent(p, {r: a, mine: b}) or ev(p.ret, {r: a, mine: b}) == 0 for a, b in back)
            cx.ob("elapsed-is-the-difference", I + nm, ok, show(p.ret))
            cx.ob("elapsed-is-never-negative", I + nm, ok2, show(p.ret))
    for p in cx.run(I + "add_duration", ["as_millis$", now], opaque=opq("ApiImport::instant_now|Duration::")):
        if p.end != "ret":
            continue
        d = [s for s in p.ret.subs() if s.op == "call" and s.a[0].endswith("Duration::as_millis")]
        v = afields(p.ret).get("instant") if p.ret.op == "agg" else None
        cx.ob("added-time-is-in-milliseconds", I + "add_duration", len(set(d)) == 1 and v is not None and ev(v, {d[0]: 250, mine: 1000}) == 1250, show(p.ret))
    for p in cx.run(I + "is_expire", [now], opaque=opq("ApiImport::instant_now"), branches=anyb):
        if p.end != "ret":
            continue
        g = calls(p, now)
        ok = len(g) == 1 and [ev(p.ret, {g[0].res: a, mine: 10}) for a in (9, 10, 11)] == [0, 0, 1]
        cx.ob("expired-after-the-instant", I + "is_expire", ok, show(p.ret))
    # plain responses: only on the server, only when the handler has one
    f = IMP + "plain_response"
    m = 0
    for p in cx.run(f, [JS], opaque=opq(OPQ), branches=anyb):
        if p.end != "ret":
            continue
        js = [j for j in js_calls(p) if j[3] != "isBrowser"]
        on = next((w for x, w, h in variants_on(p, "JsValue") if h == "="), "other")
        if on == "True":
            cx.ob("no-plain-response-in-the-browser", f, not js, desc(p))
        else:
            m += 1
            ok = len(js) == 1 and js[0][3] == "plain_response" and js[0][1] == "exec" and wrapped(js[0][4][0], "String") is T("param", "body")
            cx.ob("plain-response-sent", f, ok, desc(p))
    cx.ob("plain-response-analysed", f, m > 0)
    f = D + "try_get_plain"
    sent = 0
    for p in cx.run(f, ["ApiImport::", "dyn"], opaque=opq("ApiImport::"), branches=anyb):
        if p.end != "ret":
            continue
        d, s = calls(p, "dyn"), calls(p, "plain_response$")
        if s:
            sent += 1
            g = calls(p, "get_history_location$")
            ok = len(s) == 1 and len(d) == 1 and len(g) == 1 and d[0].args[1].has(g[0].res) and s[0].args[1] is T("vf", d[0].res, "Some", "0")
            cx.ob("plain-response-is-the-handler's-answer-for-the-url", f, ok, desc(p))
        elif d:
            v = next((w for x, w, h in variants_on(p, "Option") if x is d[0].res and h == "="), None)
            cx.ob("no-answer-no-plain-response", f, v == "None", desc(p))
    cx.ob("plain-handler-analysed", f, sent > 0)


DAC = "vertigo::driver_module::api::api_dom_access::DomAccess::"


def access_segments(cx):
    """what each builder method of DomAccess appends: the words JavaScript (and the server) understand"""
    S = T("param", "self")

    def word(t, w):
        if t.op == "agg" and t.a[1] == "String" and len(t.a) > 3:
            x = t.a[3]
            return x.op == "c" and x.a[0] == w if isinstance(w, str) else handed_over(x) and x.has(w) or x is w
        return False

    P = lambda n: T("param", n)
    table = {"api": ["api"], "element": ["root", "id"], "root": ["root", P("name")], "get": ["get", P("name")], "set": ["set", P("name"), "value"], "call": ["call", P("name"), "params"],
             "get_props": ["get_props", "props"], "synthetic": None}
    for nm, want in table.items():
        w = DAC + nm
        names = [T("param", x) for x in param_names(cx.fn(w))]
        n = 0
        for p in cx.run(w, [r"Vec::\w+$", r"extend", r"Extend"], branches=anyb, opaque=opq("DomId::to_u64$")):
            if p.end != "ret":
                cx.ob("request-step-returns", w, False, desc(p))
                continue
            B = T("f", S, "builder")
            r = p.ret
            base = r
            while base.op == "with":
                base = base.a[0]
            kept = base is S or base.op == "agg" and all(base.has(T("f", S, k)) for k in ("panic_message", "arguments", "fn_dom_access"))
            cx.ob("request-step-continues-the-same-request", w, kept, show(r))
            touched = [e for e in calls(p, r"Vec::\w+$") if e.args and e.args[0] is B]
            ps = [e for e in touched if e.name.endswith("::push")]
            cx.ob("request-step-only-appends", w, bool(ps) and all(re.search(r"::(push|reserve|len|capacity)$", e.name) for e in touched), desc(p))
            items = [e.args[1] for e in ps]
            if nm == "synthetic":
                ok = len(items) == 2 and agg_of(items[0], "JsValue", "List") and items[1] is names[2]
                if ok:
                    c = seq(p, items[0].a[3])
                    ok = len(c) == 1 and c[0][0] == "elem" and word(c[0][1], names[1])
                cx.ob("request-step-appends-its-words", w, ok, desc(p))
                n += 1
                continue
            ok = len(items) == 1 and agg_of(items[0], "JsValue", "List")
            c = seq(p, items[0].a[3]) if ok else []
            if ok:
                lst = want[-1] in ("params", "props")
                head = want[:-1] if lst else want
                went = [x for x in c if x[0] == "elem"]
                ok = len(c) >= len(head) and all(k == "elem" for k, _ in c[:len(head)])
                for x, (k, v) in zip(head, c):
                    if x == "id":
                        ok = ok and v.op == "agg" and v.a[1] == "U32" and any(y.op == "call" and y.a[0].endswith("to_u64") and y.has(names[1]) for y in v.subs()) and not any(y.op == "bin" for y in v.subs())
                    elif x == "value":
                        ok = ok and v is names[2]
                    else:
                        ok = ok and word(v, names[1] if isinstance(x, T) else x)
                rest = c[len(head):]
                if not lst:
                    ok = ok and not rest
                else:
                    src = names[2] if want[-1] == "params" else names[1]
                    its = any(d.has(src) for d in iters(p)) or any(k == "all" and v.has(src) for k, v in rest)
                    ok = ok and its and all(v.has(src) for k, v in rest) and not unfinished(p, lambda d: d.has(src))
                    if want[-1] == "props" and rest:
                        ok = ok and all(v.op == "mapped" and (v.a[1].op == "agg" and v.a[1].a[1] == "String" and v.a[1].has(item(src)) or v.a[1].op == "item") or k == "elem" and v.op == "agg" and v.a[1] == "String" and v.has(item(src)) for k, v in rest)
            cx.ob("request-step-appends-its-words", w, ok, "; ".join(k + ":" + show(v) for k, v in c) + " | " + desc(p))
            n += 1
        cx.ob("request-step-analysed", w, n > 0)


def is_default(t, d):
    if isinstance(d, T):
        return t is d
    if d is None:
        return agg_of(t, "Option", "None")
    if d == "null":
        return t.op == "agg" and t.a[1] == "Null"
    if d == "":
        return t.op == "c" and t.a[0] == "" or t.op == "empty" or t.op == "call" and t.a[0].endswith("String::new")
    return t.op == "c" and int(t.a[0]) == d


LOGW = "vertigo::driver_module::init_env::"


def uncast(t):
    while t.op == "cast":
        t = t.a[0]
    return t


CONSOLE = {"Trace": "debug", "Debug": "log", "Info": "info", "Warn": "warn", "Error": "error"}


def text_of(t):
    """literal text and shown values of a formatted string, in order"""
    if t.op == "fmt":
        out = []
        for x in t.a:
            if isinstance(x, T):
                x = x.a[1] if x.op == "disp" else x
                out += text_of(x) if x.op in ("fmt", "c") else [x]
            else:
                out.append(x)
        return out
    if t.op == "c":
        return [t.a[0]]
    if t.op == "str":
        return text_of(t.a[0])
    return [t]


@check("B09")
def b09(cx):
    cr = cx.crate()
    self_ = T("param", "self")
    lg = [i["p"] for i in cr.insts.values() if re.search(r" as log::Log>::log$", i["p"])]
    cx.need(len(lg) == 1, "one logger")
    f = lg[0]
    en = re.sub("log$", "enabled", f)
    seen, styles = set(), {}
    for p in cx.run(f, [JS], opaque=opq("DomAccess::"), branches=anyb, logcalls=True):
        if p.end != "ret":
            cx.ob("logging-never-fails", f, False, desc(p))
            continue
        js = js_calls(p)
        pre = [(b.args[1] != 0) ^ (b.name == "!") for b in brs(p) if b.args[0].op == "call" and b.args[0].a[0].endswith("starts_with")]
        if pre and not pre[-1]:
            cx.ob("other-modules-are-not-logged", f, not js, desc(p))
            continue
        lv = None
        for x, w, h in variants_on(p, "log::Level"):
            if x.op == "call" and x.a[0].endswith("::level") and h == "=":
                lv = w
        cx.ob("every-record-is-logged-once", f, len(js) == 1 and lv is not None, desc(p))
        if len(js) != 1 or lv is None:
            continue
        seen.add(lv)
        e, how, w, m, a = js[0]
        cx.ob("written-at-its-level", f, how == "exec" and (w, m) == ("window.console", CONSOLE.get(lv)), "%s: %s.%s" % (lv, w, m))
        a = [wrapped(x, "String") for x in a]
        if any(x is None for x in a) or not a:
            cx.ob("text-and-styles-are-strings", f, False, desc(p))
            continue
        rec = lambda k: [x for x in a[0].subs() if x.op == "call" and x.a[0] == "log::Record::" + k]
        body = text_of(bare(a[0]) if a[0].op == "call" else a[0])
        marks = sum(x.count("%c") for x in body if isinstance(x, str))
        cx.ob("one-style-for-each-mark", f, marks == len(a) - 1, "%d marks, %d styles" % (marks, len(a) - 1))
        styles.setdefault(lv, set()).add(show(a[1]) if len(a) > 1 else "")
        vals = [x for x in body if isinstance(x, T)]
        at = lambda k: [i for i, x in enumerate(vals) if any(y.op == "call" and y.a[0] == "log::Record::" + k for y in x.subs())]
        some = lambda k: next((w for x, w, h in variants_on(p, "Option") if h == "=" and x.op == "call" and x.a[0] == "log::Record::" + k), None)
        cx.ob("text-has-level-and-message", f, len(at("level")) == 1 and len(at("args")) == 1 and at("level")[0] < at("args")[0] == len(vals) - 1, str([show(x) for x in vals]))
        cx.ob("text-says-where", f, len(at("file" if some("file") == "Some" else "target")) == 1 and (some("line") != "Some" or len(at("line")) == 1), str([show(x) for x in vals]))
    cx.ob("levels-analysed", f, seen == set(CONSOLE), str(seen))
    cx.ob("a-style-per-level", f, len({x for s in styles.values() for x in s}) == len(CONSOLE) and all(len(s) == 1 for s in styles.values()), str(styles))
    n = set()
    for p in cx.run(en, [], branches=anyb, logcalls=True):
        pv = next(((x, w) for x, w, h in variants_on(p, "Option") if h == "="), (None, None))
        n.add(pv[1])
        r = p.ret
        if pv[1] == "None":
            cx.ob("without-a-prefix-everything-is-logged", en, ev(r, {}) == 1, show(r))
        elif pv[1] == "Some":
            cx.ob("a-prefix-selects-its-modules", en, r.op == "call" and r.a[0].endswith("starts_with") and r.a[2].op == "call" and r.a[2].a[0].endswith("::target") and r.a[3] is T("vf", pv[0], "Some", "0"), show(r))
    cx.ob("prefix-analysed", en, n == {"None", "Some"}, str(n))
    # installing
    WHAT = [r"set_boxed_logger$", r"set_max_level$", r"set_hook$", r"show_panic_message$", r"PanicMessage::show$", r"call_once"]
    OPI = opq(r"ApiImport::|PanicMessage::|set_hook$|EventEmitter|flush_dom")
    f = LOGW + "init_logger"
    n = set()
    for p in cx.run(f, WHAT, opaque=OPI, branches=anyb, logcalls=True):
        s = calls(p, "set_boxed_logger$")
        ok = p.end == "ret" and len(s) == 1
        lgr = next((x for x in (s[0].args[0].subs() if ok else ()) if x.op == "agg" and x.a[0].split("::")[-1] in lg[0]), None)
        cx.ob("logger-writes-to-the-page", f, lgr is not None and any(T("f", T("param", param_names(cx.fn(f))[0]), k) in list(lgr.subs()) for k in ("arguments", "fn_dom_access", "callback_store")), desc(p))
        if not ok:
            continue
        r = next((w for x, w, h in variants_on(p, "Result") if x is s[0].res and h == "="), None)
        n.add(r)
        m, sh = calls(p, "set_max_level$"), calls(p, r"show_panic_message$|PanicMessage::show$")
        if r == "Ok":
            lv = [x.a[1] for x in (m[0].args[0].subs() if m else ()) if x.op == "agg" and x.a[0].startswith("log::Level")]
            cx.ob("debug-and-above-are-let-through", f, len(m) == 1 and lv in (["Debug"], ["Trace"]) and not sh, desc(p))
        elif r == "Err":
            cx.ob("failure-is-shown", f, len(sh) == 1 and sh[0].args[1].has(T("vf", s[0].res, "Err", "0")), desc(p))
    cx.ob("installing-analysed", f, n == {"Ok", "Err"}, str(n))
    f = LOGW + "init_env"
    n = 0
    api = T("param", param_names(cx.fn(f))[0])
    for p in cx.run(f, WHAT, opaque=opq(r"call_once|ApiImport::"), logcalls=True):
        o = calls(p, "call_once")
        tot = [len(calls(p, w)) for w in ("set_boxed_logger$", "set_hook$")]
        ok = p.end == "ret" and len(o) == 1 and max(tot) <= 1 and o[0].args[0].op == "static" and o[0].args[1].op == "clo"
        cx.ob("installed-once", f, ok, desc(p))
        if not ok:
            continue
        for q in closure_runs(cx, o[0].args[1], WHAT, opaque=OPI, branches=anyb, logcalls=True):
            h = calls(q, "set_hook$")
            k = q.end == "ret" and len(h) == 1 and len(calls(q, "set_boxed_logger$")) == 1
            cx.ob("logger-and-hook-installed", f, k, desc(q))
            if not k:
                continue
            n += 1
            hk = next((x for x in h[0].args[0].subs() if x.op == "clo"), None)
            if hk is None:
                cx.ob("panic-is-shown", f, False, desc(q))
                continue
            for z in closure_runs(cx, hk, WHAT, opaque=opq(r"ApiImport::|PanicMessage::show")):
                c = calls(z, r"PanicMessage::show$|show_panic_message$")
                info = c[0].args[1] if c else None
                who = c and (has_field(c[0].args[0], "panic_message") or c[0].name.endswith("show_panic_message"))
                cx.ob("panic-is-shown", f, z.end == "ret" and len(c) == 1 and bool(who) and any(x.op in ("str", "disp", "item", "param") for x in info.subs()) and not any(x.op == "c" for x in [info]), desc(z))
    cx.ob("hook-analysed", f, n > 0)
    f = "vertigo::driver_module::api::panic_message::PanicMessage::show"
    msg = T("param", param_names(cx.fn(f))[1])
    for p in cx.run(f, ["dyn"]):
        d = calls(p, "dyn")
        ok = p.end == "ret" and len(d) == 1 and len(d[0].args) == 3 and d[0].args[0].has(self_)
        if ok:
            ln = [x for x in d[0].args[2].subs() if x.op == "call" and x.a[0].endswith("::len")]
            ok = bare(uncast(d[0].args[1])) is msg and len(ln) == 1 and uncast(d[0].args[2]) is ln[0] and bare(ln[0].a[2]) is msg
        cx.ob("whole-message-is-shown", f, ok, desc(p))
    # the application starts with logging and panics already set up, and shows what it returned
    f = "vertigo::start_app"
    n = 0
    for p in cx.run(f, ["dyn", "init_env$", "start_app_inner$"], opaque=opq("LocalKey|init_env$|start_app_inner$")):
        d = calls(p, "dyn")
        if p.end != "ret" or not d and not p.trace:
            continue
        n += 1
        nm = [("app" if e in d else e.name.rsplit("::", 1)[-1]) for e in p.trace]
        i = calls(p, "start_app_inner$")
        cx.ob("ready-before-the-application", f, "init_env" in nm and nm.index("init_env") < nm.index("app") if "app" in nm else False, str(nm))
        cx.ob("shows-what-the-application-returned", f, len(d) == len(i) == 1 and i[0].args[0] is d[0].res, desc(p))
    cx.ob("start-analysed", f, n > 0)
    # websocket messages and plain responses are handed on as given
    f = "vertigo::websocket::WebsocketConnection::send"
    for p in cx.run(f, [r"websocket_send_message$"], opaque=opq("ApiImport::")):
        c = calls(p, "websocket_send_message$")
        nm = param_names(cx.fn(f))
        ok = p.end == "ret" and len(c) == 1 and c[0].args[0] is T("f", self_, "api") and c[0].args[1].has(T("f", self_, "callback_id")) and bare(c[0].args[2]) is T("param", nm[1])
        cx.ob("message-sent-on-its-connection", f, ok, desc(p))
    f = "vertigo::driver_module::driver::Driver::plains"
    for p in cx.run(f, ["replace$", "ValueMut::set$"], stores=lambda t, v: has_field(t, "_plains_handler")):
        h = [x for e in p.trace for x in e.args if isinstance(x, T) and x.has(T("param", "callback")) and not any(y.op == "agg" and y.a[1] == "None" for y in x.subs())]
        cx.ob("plain-handler-is-kept", f, p.end == "ret" and len(h) == 1, desc(p))
