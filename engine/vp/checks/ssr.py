"""Server-side rendering: the request loop, the page, the embedded application, the server."""
import re
from ..core import check, Anchor
from ..q import *
from ..term import T, show
from .reactive import opq, anyb

U = "vertigo_cli"
S = "vertigo_cli::serve::"
HR = S + "html::html_response::HtmlResponse::"
WI = S + "wasm::wasm_instance::WasmInstance::"
RS = S + "response_state::ResponseState::"
REQ = S + "server_state::ServerState::request"
SPAWN = "vertigo_cli::commons::spawn::SpawnOwner"
MSG = "wasm::message::Message"


def arun(cx, f, watch, **k):
    """paths of an async function: the body of the future it returns"""
    f = cx.fn(f, U) if isinstance(f, str) else f
    out = []
    for p in cx.run(f, [r"^$"], unit=U):
        c = [t for t in p.ret.subs() if t.op == "clo" and t.a[1] is not None] if p.end == "ret" else []
        if not c:
            raise Anchor(f"{f['p']} is not an async function the analysis can enter")
        out += cx.run(cx.crate(U).insts[c[0].a[1]], watch, unit=U, args=[c[0]], **k)
    return out


def crun(cx, clo, watch, **k):
    """paths of a closure or future with what it captured"""
    return cx.run(cx.crate(U).insts[clo.a[1]], watch, unit=U, args=[clo] + k.pop("extra", []), **k)


def plain(t):
    """drop conversions that keep the content"""
    while t.op == "call" and re.search(r"::(to_string|to_owned|clone|into|from|as_str|to_lowercase_)$", t.a[0]) and len(t.a) == 3:
        t = t.a[2]
    return t


def outcome(p, i):
    """the variant established first for the result of event number i"""
    for b in p.trace[i + 1:]:
        if b.kind == "br" and b.args[0].op == "discr" and b.args[0].a[0] is p.trace[i].res and b.name == "=":
            return b.args[1]
    return None


def holds(evs, env):
    """can the branches among the events be taken when the atoms have these values?"""
    class P:
        trace = evs
    return consistent(P, env)


def received(p):
    """receive events with their outcome: (position, event, outcome, message)"""
    out = []
    for i, e in enumerate(p.trace):
        if e.kind == "call" and re.search(r"UnboundedReceiver::try_recv$", e.name):
            what = outcome(p, i)
            if what == "Err":
                err = T("vf", e.res, "Err", "0")
                b = [b for b in p.trace[i + 1:] if b.kind == "br" and b.args[0].op == "discr" and b.args[0].a[0] is err]
                # the receiver's own side keeps a sender, so an error not told apart is an empty channel
                what = "Empty" if not b else b[0].args[1] if b[0].name == "=" else "Disconnected" if b[0].args[1] == "Empty" else "Empty"
            out.append((i, e, what, T("vf", e.res, "Ok", "0") if what == "Ok" else None))
        elif e.kind == "suspend" and e.args[0].op == "call" and re.search(r"UnboundedReceiver::recv$", e.args[0].a[0]):
            got = T("await", e.args[0])
            b = [b for b in p.trace[i + 1:] if b.kind == "br" and b.args[0].op == "discr" and b.args[0].a[0] is got]
            what = b[0].args[1] if b else None
            out.append((i, e, what, T("vf", got, "Some", "0") if what == "Some" else None))
    return out


LOOPW = [r"WasmInstance::\w+$", r"HtmlResponse::\w+$", r"SpawnOwner::\w+$", "unbounded_channel$", r"try_recv$", r"UnboundedReceiver::recv", r"::poll$", "drop:", r"mem::forget$"]
LOOPO = r"WasmInstance::(new|call_vertigo_entry_function)$|HtmlResponse::(new|process_message|waiting_request|build_response)$|SpawnOwner::(new|off)$|RequestState::env$"


def request_paths(cx):
    ps = arun(cx, REQ, LOOPW, opaque=opq(LOOPO), branches=anyb, suspend=True, drops=True)
    good = [p for p in ps if p.end == "ret"]
    cx.floor("ways through a page request", len(good), 6)
    for p in ps:
        if p.end == "panic":
            cx.ob("request-cannot-panic", REQ, False, desc(p))
    return good


@check("S01", (U,))
def s01(cx):
    W = REQ
    for p in request_paths(cx):
        ch, new, ent = calls(p, "unbounded_channel$"), calls(p, r"WasmInstance::new$"), calls(p, "call_vertigo_entry_function$")
        html, own = calls(p, r"HtmlResponse::new$"), calls(p, r"SpawnOwner::new$")
        if not cx.ob("one-channel-application-and-timer-per-request", W, [len(x) for x in (ch, new, ent, html, own)] == [1] * 5, desc(p)):
            continue
        tx, rx = T("f", ch[0].res, "0"), T("f", ch[0].res, "1")
        pos = {n: idx(p, n)[0] for n in ("unbounded_channel$", r"WasmInstance::new$", "call_vertigo_entry_function$", r"HtmlResponse::new$", r"SpawnOwner::new$")}
        cx.ob("application-reports-to-this-request", W, new[0].args[0] is tx and html[0].args[0] is tx, desc(p))
        cx.ob("entry-point-called-once", W, ent[0].args[0] is new[0].res and new[0].res in html[0].args, desc(p))
        timer = own[0].args[0]
        cx.ob("timer-reports-to-this-request", W, timer.op == "clo" and timer.has(tx), show(timer))
        rec = received(p)
        first = min([i for i, e in enumerate(p.trace) if e.kind in ("yield", "suspend")] + [r[0] for r in rec if r[1].kind == "suspend"] + [len(p.trace)])
        cx.ob("timer-runs-before-anything-is-waited-for", W, pos[r"SpawnOwner::new$"] < first, desc(p))
        cx.ob("all-messages-come-from-this-request's-channel", W, all(e.args[0].has(rx) for _, e, _, _ in rec) and bool(rec), desc(p))
        # every suspension waits for a message of this request
        for i, e in enumerate(p.trace):
            if e.kind == "suspend":
                cx.ob("waits-only-for-messages", W, any(r[0] == i for r in rec), desc(p))
        # what is received is handled, in order, and the answer given is the first one produced
        pm = ncalls(p, r"HtmlResponse::process_message$")
        msgs = [(i, m) for i, e, w, m in rec if m is not None]
        ok = len(pm) == len(msgs)
        for k in range(min(len(pm), len(msgs))):
            nxt = msgs[k + 1][0] if k + 1 < len(msgs) else 10 ** 9
            ok = ok and pm[k][1].args[0] is html[0].res and pm[k][1].args[1] is msgs[k][1] and msgs[k][0] < pm[k][0] < nxt
        cx.ob("every-message-is-handled-in-order", W, ok, desc(p))
        answers = [e for i, e in pm if outcome(p, i) == "Some"]
        if answers:
            e = answers[-1]
            cx.ob("an-answer-ends-the-request", W, len(answers) == 1 and e is pm[-1][1] and p.ret is T("vf", e.res, "Some", "0"), desc(p))
        else:
            br = ncalls(p, r"HtmlResponse::build_response$")
            good = len(br) == 1 and p.ret is br[0][1].res and br[0][1].args[0] is html[0].res
            cx.ob("otherwise-the-page-is-the-answer", W, good, desc(p))
            last = rec[-1] if rec else None
            wr = [(i, e) for i, e in ncalls(p, r"HtmlResponse::waiting_request$") if last and i > last[0]]
            after = [b for b in p.trace[wr[-1][0]:]] if wr else []
            idle = bool(wr) and holds(after, {wr[-1][1].res: 0}) and not any(holds(after, {wr[-1][1].res: k}) for k in (1, 2, 7))
            done = last is not None and (last[2] in ("Disconnected", "None") or last[2] == "Empty" and bool(wr) and idle)
            cx.ob("page-sent-only-when-nothing-is-outstanding", W, done, desc(p))
        # sleeping for a message only while a request is outstanding
        for k, (i, e, w, m) in enumerate(rec):
            if e.kind == "suspend":
                prev = rec[k - 1] if k else None
                wr = [x for j, x in ncalls(p, r"HtmlResponse::waiting_request$") if prev and prev[0] < j < i]
                cx.ob("waits-only-while-a-request-is-outstanding", W, prev is not None and prev[2] == "Empty" and bool(wr)
                      and not consistent(p, {wr[-1].res: 0}), desc(p))
        # the timer lives until the answer is known and no longer
        lastrec = rec[-1][0] if rec else 0
        offs = [i for i, e in enumerate(p.trace) if e.kind == "drop" and e.args[0] is own[0].res or e.kind == "call" and e.name.endswith("SpawnOwner::off") and e.args[0] is own[0].res]
        cx.ob("timer-lives-until-the-answer", W, bool(offs) and min(offs) > lastrec, desc(p))
        cx.ob("nothing-is-leaked", W, not calls(p, "forget$"), desc(p))
        s01_timer(cx, timer, tx)
    spawn_owner(cx)
    waiting(cx)
    messages(cx)
    traps(cx)
    entry(cx)


def secs(t):
    """seconds of a Duration term"""
    if t.op == "call" and "Duration::from_" in t.a[0] and t.a[2].op == "c":
        u = t.a[0].rsplit("_", 1)[-1]
        k = {"secs": 1, "millis": 1e-3, "micros": 1e-6, "nanos": 1e-9, "mins": 60}.get(u)
        return None if k is None or isinstance(t.a[2].a[0], str) else t.a[2].a[0] * k
    return None


def s01_timer(cx, clo, tx):
    key = ("timer", clo)
    if getattr(cx, "_seen", None) is None:
        cx._seen = set()
    if key in cx._seen:
        return
    cx._seen.add(key)
    W = REQ + " (timer)"
    n = 0
    for q in crun(cx, clo, ["sleep$", r"::send$", "poll"], branches=anyb, suspend=True):
        if q.end != "ret":
            continue
        n += 1
        sl, sd = ncalls(q, "time::sleep$"), ncalls(q, r"UnboundedSender::send$")
        ok = len(sl) == 1 and len(sd) == 1 and sl[0][0] < sd[0][0]
        cx.ob("timer-waits-then-reports", W, ok, desc(q))
        if ok:
            s = secs(sl[0][1].args[0])
            cx.ob("time-limit-is-a-constant", W, s is not None and 0 < s <= 60, show(sl[0][1].args[0]))
            cx.ob("timer-asks-for-the-page", W, sd[0][1].args[0] is tx and agg_of(sd[0][1].args[1], "Message", "TimeoutAndSendResponse"), desc(q))
            rdy = [i for i, e in enumerate(q.trace) if e.kind in ("suspend",) or e.kind == "br" and e.args[1] == "Ready" or e.kind == "call" and "poll" in e.name]
            cx.ob("timer-reports-after-the-wait", W, bool(rdy) and sl[0][0] < max(rdy) < sd[0][0], desc(q))
    cx.ob("timer-ends", W, n > 0, "")


def spawn_owner(cx):
    n = 0
    for p in cx.run(SPAWN + "::new", ["spawn$"], unit=U):
        if p.end == "ret":
            n += 1
            e = calls(p, r"tokio.*spawn$")
            cx.ob("owner-starts-its-task", SPAWN + "::new", len(e) == 1 and e[0].args[0].op == "param" and p.ret.has(e[0].res), desc(p))
    for p in cx.run(f"<{SPAWN} as std::ops::Drop>::drop", ["abort$"], unit=U):
        if p.end == "ret":
            n += 1
            e = calls(p, r"abort$")
            cx.ob("dropping-the-owner-ends-its-task", SPAWN + "::drop", len(e) == 1 and has_field(e[0].args[0], "handler"), desc(p))
    cx.floor("task owner paths", n, 2)


def counts(cx, where, ps, it, dom_pred, wanted):
    """the value returned is the number of elements with wanted(path, item) True; None = undecided"""
    n = 0
    for p in ps:
        if p.end != "ret":
            continue
        w = p.ret
        while w.op == "cast":
            w = w.a[0]
        if w.op == "call" and w.a[0].endswith("::count"):
            f = w.a[2]
            while f.op == "call" and f.a[0].endswith("::filter"):
                f = f.a[2]
            cx.ob("every-element-is-looked-at", where, any(dom_pred(x) for x in f.subs()) and not re.search(r"::(skip|take|step_by|take_while|skip_while)\(", show(w)), show(w))
            n += 1
            continue
        if w.op == "call" and w.a[0].endswith("Iterator::sum") and w.a[2].op == "mapped":
            # each element gives what it adds
            d, x = w.a[2].a[:2]
            d = d.a[2] if d.op == "call" and re.search(r"::(values|iter)$", d.a[0]) else d
            cx.ob("every-element-is-looked-at", where, dom_pred(d) and d.op == "f", show(w))
            if x.op == "item" and x.a[0].op == "empty":
                continue
            g = wanted(p, T("item", w.a[2].a[0]))
            n += 1
            cx.ob("counts-exactly-what-is-outstanding", where, g is not None and ev(x, {}) == (1 if g else 0), desc(p))
            continue
        if not cx.ob("result-is-a-count", where, w.op == "loop", show(w)):
            continue
        inits = {ev(v, {}) for v in it.loopvals.get(w, ()) if w not in v.subs()}
        cx.ob("count-starts-at-zero", where, inits == {0}, str(inits))
        cx.ob("every-element-is-looked-at", where, finished(p, dom_pred), desc(p))
        ups = [e for e in p.trace if e.kind == "carry" and e.args[0] is w]
        vis = [e for e in p.trace if e.kind == "br" and e.args[0].op == "discr" and e.args[0].a[0].op == "next" and e.args[1] == "Some"]
        if vis:
            n += 1
            g = wanted(p, T("item", vis[0].args[0].a[0].a[0]))
            cx.ob("counts-exactly-what-is-outstanding", where, g is not None and (len(ups) == 1 or not ups and not g) and all(ev(e.args[1], {w: 5}) == (6 if g else 5) for e in ups), desc(p))
    return n


def waiting(cx):
    W = HR + "waiting_request"
    ps = cx.run(W, [r"HashMap::\w+$", "filter$", "count$"], unit=U, branches=anyb, carries=True)
    st = lambda d: any(has_field(x, "fetch") for x in (d,))

    def requested(p, it):
        v = [w for t, w, h in variants_on(p, "FetchStatus") if t.has(it) and h == "="]
        return {("Requested",): True, ("Response",): False}.get(tuple(dict.fromkeys(v)))
    n = counts(cx, W, ps, cx.last, st, requested)
    for p in ps:
        for e in calls(p, "filter$"):
            c = e.args[1]
            if c.op != "clo":
                continue
            for q in crun(cx, c, ["^$"], branches=anyb):
                v = [w for t, w, h in variants_on(q, "FetchStatus") if h == "="]
                if q.end == "ret" and v:
                    n += 1
                    cx.ob("counts-exactly-what-is-outstanding", W, ev(q.ret, {}) == (1 if v[-1] == "Requested" else 0), desc(q))
    cx.floor("outstanding requests counted", n, 2)


PMO = r"WasmInstance::|HtmlResponse::build_response$|RequestState::env$|AllElements::feed$|dom_command_from_js_json$|send_request$|ResponseState::(html|plain|internal_error)$"
PMW = [r"WasmInstance::\w+$", r"HtmlResponse::\w+$", r"AllElements::\w+$", "dom_command_from_js_json$", r"ResponseState::\w+$", r"HashMap::\w+$", r"Entry::", "spawn", r"::send$", r"Vec::\w+$"]


def message_paths(cx):
    out = {}
    for p in cx.run(HR + "process_message", PMW, unit=U, opaque=opq(PMO), branches=anyb):
        v = [w for t, w, h in variants_on(p, "Message") if t.op == "param" and h == "="]
        if p.end == "ret" and cx.ob("each-kind-of-message-handled", HR + "process_message", bool(v), desc(p)):
            out.setdefault(v[0], []).append(p)
    return out


def some(t):
    return t.a[3] if agg_of(t, "Option", "Some") else None


def messages(cx):
    W = HR + "process_message"
    by = message_paths(cx)
    kinds = {v["n"] if isinstance(v, dict) else v for v in variants_of(cx, "message::Message")}
    cx.ob("each-kind-of-message-handled", W, kinds == set(by), f"{sorted(kinds)} / {sorted(by)}")
    m = T("param", "message")
    for k, ps in sorted(by.items()):
        for p in ps:
            s = some(p.ret)
            none = agg_of(p.ret, "Option", "None")
            w = f"{W} ({k})"
            if k == "TimeoutAndSendResponse":
                br = calls(p, "build_response$")
                cx.ob("time-limit-sends-the-page", w, len(br) == 1 and s is br[0].res and br[0].args[0].op == "param", desc(p))
            elif k == "Panic":
                e = calls(p, r"ResponseState::\w+$")
                ok = s is not None and len(e) == 1 and e[0].name.endswith("internal_error") and s is e[0].res
                cx.ob("panic-gives-an-error-response", w, ok, desc(p))
                told = any(t.op == "vf" and t.a[1] == "Panic" for t in (s or p.ret).subs())
                known = any(b.args[1] == "Some" for b in brs(p) if b.args[0].op == "discr" and "Option" in str(b.args[0].a[1]))
                cx.ob("error-response-says-what-happened", w, told or not known, desc(p))
            elif k == "PlainResponse":
                e = calls(p, r"ResponseState::\w+$")
                ok = s is not None and len(e) == 1 and e[0].name.endswith("plain") and s is e[0].res
                a = e[0].args[0] if e else None
                cx.ob("plain-response-is-the-answer", w, ok and a.op == "vf" and a.a[1] == "PlainResponse", desc(p))
            else:
                cx.ob("other-messages-do-not-answer", w, none, show(p.ret))
            if k == "DomUpdate":
                d, f = calls(p, "dom_command_from_js_json$"), calls(p, r"AllElements::feed$")
                ok = len(d) == 1 and d[0].args[0].op == "vf" and d[0].args[0].a[1] == "DomUpdate"
                bad = [b for b in brs(p) if d and b.args[0].op == "discr" and b.args[0].a[0] is d[0].res and b.args[1] == "Err"]
                cx.ob("dom-update-is-applied-to-this-page", w, ok and (bool(bad) and not f or len(f) == 1 and has_field(f[0].args[0], "all_elements") and f[0].args[1] is T("vf", d[0].res, "Ok", "0")), desc(p))
            elif k == "SetTimeoutZero":
                c = calls(p, r"WasmInstance::wasm_callback$")
                cx.ob("zero-timer-runs-its-callback", w, len(c) == 1 and c[0].args[1].op == "vf" and c[0].args[1].a[2] == "callback_id" and has_field(c[0].args[0], "inst")
                      and c[0].args[2].op == "agg" and c[0].args[2].a[1] == "Undefined", desc(p))


def variants_of(cx, tail, unit=U):
    a = [x for n, x in cx.crate(unit).adts.items() if n.endswith(tail)]
    if len(a) != 1:
        raise Anchor(f"type {tail}: {len(a)} found")
    return [v["n"] for v in a[0]["v"]] if isinstance(a[0]["v"][0], dict) else a[0]["v"]


def traps(cx):
    """an application that panics is answered with the message and not entered again"""
    W = WI + "call_function"
    n = set()
    for p in cx.run(W, ["get_typed_func", r"TypedFunc::call$", r"::send$"], unit=U, branches=anyb, stores=lambda t, v: True):
        if p.end != "ret":
            continue
        c = calls(p, r"TypedFunc::call$")
        if not cx.ob("enters-the-application-once", W, len(c) == 1, desc(p)):
            continue
        out = [b.args[1] for b in brs(p) if b.args[0].op == "discr" and b.args[0].a[0] is c[0].res]
        g = calls(p, "get_typed_func$")
        cx.ob("function-called-is-the-one-named", W, len(g) == 1 and any(a is T("param", "name") for a in g[0].args) and c[0].args[0].has(g[0].res) and c[0].args[-1] is T("param", "params"), desc(p))
        if out and out[0] == "Err":
            n.add("Err")
            sd = [e for e in calls(p, r"UnboundedSender::send$") if agg_of(e.args[1], "Message", "Panic") and has_field(e.args[0], "sender")]
            cx.ob("trap-is-reported-as-a-panic", W, len(sd) == 1, desc(p))
            st = [e for e in p.trace if e.kind == "store" and ends_field(e.args[0], "trapped") and is_true(e.args[1])]
            cx.ob("trap-is-remembered", W, len(st) == 1, desc(p))
            cx.ob("trap-gives-no-result", W, agg_of(p.ret, "Option", "None"), show(p.ret))
        else:
            n.add("Ok")
            cx.ob("result-is-passed-on", W, some(p.ret) is T("vf", c[0].res, "Ok", "0"), show(p.ret))
            cx.ob("no-panic-reported-otherwise", W, not calls(p, r"::send$") and not [e for e in p.trace if e.kind == "store"], desc(p))
    cx.ob("both-outcomes-handled", W, n == {"Ok", "Err"}, str(n))
    # no one enters the instance after a trap
    W = WI + "wasm_callback"
    k = 0
    for p in cx.run(W, ["call_function$", "save_value$", "from_store$", "get_typed_func"], unit=U, branches=anyb, opaque=opq("DataContext::|call_function$")):
        cf = ncalls(p, "call_function$")
        tr = [b for b in brs(p) if ends_field(b.args[0], "trapped")]
        if tr and tr[0].args[1] == 1 and tr[0].name == "=":
            k += 1
            cx.ob("trapped-instance-is-not-entered", W, not cf and not calls(p, "save_value"), desc(p))
            continue
        cx.ob("trap-is-looked-at-first", W, bool(tr), desc(p))
        if p.end == "ret":
            sv = calls(p, "save_value$")
            ok = len(cf) == 1 and len(sv) == 1 and sv[0].args[1].op == "param" and cf[0][1].args[1].op == "c" and cf[0][1].args[1].a[0] == "wasm_callback"
            a = cf[0][1].args[2] if cf else None
            cx.ob("callback-gets-its-id-and-value", W, ok and a.op == "agg" and a.a[3].op == "param" and a.a[3].a[0] == "callback_id" and a.a[4] is sv[0].res, desc(p))
            # ids are 64 bit numbers, blocks 32 bit
    cx.ob("trapped-instance-is-not-entered", W, k >= 1, "no path handles it")
    for c in sorted(callers(cx, "call_function")):
        if c in (WI + "wasm_callback",):
            continue
        cx.ob("only-the-entry-point-enters-unchecked", c, c == WI + "call_vertigo_entry_function", "enters the application without looking whether it has trapped")
    inst = cx.crate(U)
    tf = callers(cx, "get_typed_func")
    cx.ob("one-way-into-the-application", WI, tf == {WI + "call_function"}, str(sorted(tf)))
    # starts untrapped, with the sender of the request
    for p in wasm_new(cx):
        a = [t for t in p.ret.subs() if agg_of(t, "WasmInstance")]
        ok = len(a) == 1 and is_false(afields(a[0])["trapped"]) and afields(a[0])["sender"] is T("param", "sender")
        cx.ob("instance-starts-untrapped", WI + "new", ok, show(p.ret)[:200])


def callers(cx, tail, unit=U):
    cr, out = cx.crate(unit), set()
    for i in cr.insts.values():
        for n, t in cr.calls(i):
            if (t["f"].get("p") or "").endswith("::" + tail):
                out.add(re.sub(r"::\{closure#\d+\}", "", i["p"]))
    return out


WNO = r"match_\w+$|DataContext::|RequestState::env$"


def wasm_new(cx):
    if not hasattr(cx, "_wn"):
        cx._wn = [p for p in cx.run(WI + "new", [r"Func::wrap$", r"Instance::new$", r"Store::new$"], unit=U, opaque=opq(WNO), branches=anyb) if p.end == "ret"]
        cx.floor("ways to make an instance", len(cx._wn), 1)
    return cx._wn


def imports(cx):
    """(panic_message, dom_access) closures given to the application, in the order of its imports"""
    out = {}
    for p in wasm_new(cx):
        inst = calls(p, r"wasmtime::Instance::new$")
        if not cx.ob("one-instance-per-request", WI + "new", len(inst) == 1, desc(p)):
            continue
        imp = inst[0].args[2]
        items = list(imp.a[3:]) if imp.op == "agg" else []
        wr = {e.res: e.args[-1] for e in calls(p, r"Func::wrap$")}
        cl = []
        for x in items:
            f = [wr[t] for t in x.subs() if t in wr]
            cl.append(f[0] if f else None)
        if cx.ob("application-gets-two-functions", WI + "new", len(cl) == 2 and all(c is not None and c.op == "clo" for c in cl), show(imp)[:200]):
            out[tuple(cl)] = p
    return list(out)


def entry(cx):
    n = 0
    for pm, da in imports(cx):
        for q in crun(cx, pm, [r"::send$", r"DataContext::\w+$"], branches=anyb, opaque=opq(WNO)):
            if q.end != "ret":
                continue
            n += 1
            g, s = calls(q, "get_string_from$"), calls(q, r"UnboundedSender::send$")
            ok = len(g) == 1 and len(s) == 1 and s[0].args[0] is T("param", "sender") and agg_of(s[0].args[1], "Message", "Panic") and s[0].args[1].a[3] is g[0].res
            cx.ob("panic-message-is-passed-on", WI + "new (panic_message)", ok and [x.a[0] for x in g[0].args[1:]] == ["ptr", "offset"], desc(q))
    cx.floor("panic message paths", n, 1)
    W = WI + "call_vertigo_entry_function"
    for p in cx.run(W, ["call_function$"], unit=U, opaque=opq("call_function$")):
        if p.end == "ret":
            e = calls(p, "call_function$")
            cx.ob("entry-point-is-the-application's", W, len(e) == 1 and e[0].args[1].op == "c" and e[0].args[1].a[0] == "vertigo_entry_function", desc(p))


# ------------------------------------------------------------------ S02
def copy_of(t, src):
    """t is src, or src taken apart and put together again"""
    if t is src:
        return True
    if t.op != "agg" or len(t.a) < 4:
        return False
    var = t.a[1] if t.a[1] and not t.a[0].endswith("::" + t.a[1]) else None
    return all(copy_of(v, T("vf", src, var, n) if var else T("f", src, n)) or copy_of(v, T("f", src, n)) for n, v in afields(t).items())


SHARED = re.compile(r"\b(RefCell|Cell|UnsafeCell|OnceCell|LazyLock|OnceLock|Mutex|RwLock|Atomic\w+|DashMap|Sender|Receiver|Store|Instance)\b")


def field_types(cx, tail, seen=None):
    """types of all fields, through the crate's own structs"""
    cr = cx.crate(U)
    seen = set() if seen is None else seen
    out = []
    for n, a in cr.adts.items():
        if n.endswith("::" + tail) and n not in seen:
            seen.add(n)
            for v in a["v"]:
                for f in v["f"]:
                    ty = cr.ty(f["t"])
                    out.append((f"{tail}.{f['n']}", ty))
                    for m in re.findall(r"[\w:]+", ty):
                        if m.startswith("vertigo_cli::") or m.startswith("serve::"):
                            out += field_types(cx, m.rsplit("::", 1)[-1], seen)
    return out


@check("S02", (U,))
def s02(cx):
    cr = cx.crate(U)
    W = REQ
    for p in request_paths(cx):
        ch, new, html = calls(p, "unbounded_channel$"), calls(p, r"WasmInstance::new$"), calls(p, r"HtmlResponse::new$")
        if not cx.ob("application-and-page-made-for-the-request", W, len(ch) == len(new) == len(html) == 1, desc(p)):
            continue
        slf = T("param", "self")
        a = new[0].args
        rq = [x for x in a if agg_of(x, "RequestState")]
        ok = len(rq) == 1 and afields(rq[0])["url"] is T("param", "url") and afields(rq[0])["env"] is T("f", slf, "env")
        cx.ob("application-is-told-the-requested-address-and-environment", W, ok, show(T("x", *a))[:300])
        cx.ob("engine-and-module-are-the-server's", W, T("f", slf, "engine") in a and T("f", slf, "module") in a, show(T("x", *a))[:300])
        h = html[0].args
        cx.ob("page-belongs-to-the-request", W, T("f", ch[0].res, "0") in h and new[0].res in h and T("f", slf, "env") in h and T("f", slf, "mount_path") in h, show(T("x", *h))[:300])
    # the state shared between requests cannot be changed by one
    n = 0
    for f, ty in field_types(cx, "ServerState"):
        n += 1
        cx.ob("shared-state-is-read-only", f, not SHARED.search(re.sub(r"std::sync::Arc", "", ty)), ty)
    cx.floor("fields of the shared state", n, 5)
    sig = cx.fn(REQ, U)
    st = cr.ty(sig["locals"][1][0])
    cx.ob("requests-only-read-the-server-state", REQ, not st.startswith("&mut") and "mut " not in st, st)
    stat = {n: c for n, c in cr.consts.items() if c.get("static") and n.startswith("vertigo_cli::") and " as clap::" not in n}
    ok = {S + "serve_run::STATE"}
    for s in sorted(stat):
        ty = cr.ty(stat[s]["t"]) if isinstance(stat[s].get("t"), int) else str(stat[s].get("t"))
        mine = s in ok and "ServerState" in ty
        quiet = not SHARED.search(ty) and not stat[s].get("mut") and "log" not in ty.lower()
        harmless = "__CALLSITE" in s or "::META" in s or "callsite" in ty.lower()
        cx.ob("no-other-state-outlives-a-request", s, mine or quiet or harmless, ty)
    cx.ob("server-state-is-static", "STATE", any(s in ok for s in stat), str(sorted(stat)))
    # the page starts empty
    for p in cx.run(HR + "new", [r"^$"], unit=U):
        a = [t for t in p.ret.subs() if agg_of(t, "HtmlResponse")] if p.end == "ret" else []
        if not cx.ob("page-starts-empty", HR + "new", len(a) == 1, desc(p)):
            continue
        f = afields(a[0])
        for k, v in f.items():
            if k in ("fetch", "all_elements"):
                cx.ob("page-starts-empty", HR + "new." + k, not any(t.op in ("param", "static") for t in v.subs()), show(v)[:200])
            else:
                src = {"sender": "sender", "inst": "inst", "env": "env", "mount_path": "mount_path"}.get(k)
                cx.ob("page-keeps-what-it-was-given", HR + "new." + k, src is not None and copy_of(v, T("param", src)), show(v)[:200])
    # a store and an instance of its own, with this request's data and functions
    n = 0
    for p in wasm_new(cx):
        st, ins = calls(p, r"wasmtime::Store::new$"), calls(p, r"wasmtime::Instance::new$")
        if not cx.ob("store-and-instance-per-request", WI + "new", len(st) == 1 and len(ins) == 1, desc(p)):
            continue
        n += 1
        cx.ob("store-has-this-request's-data", WI + "new", copy_of(st[0].args[1], T("param", "request")), show(st[0].args[1]))
        cx.ob("instance-lives-in-its-own-store", WI + "new", ins[0].args[0].has(st[0].res) and ins[0].args[1] is T("param", "module"), desc(p))
        a = [t for t in p.ret.subs() if agg_of(t, "WasmInstance")]
        if a:
            f = afields(a[0])
            cx.ob("instance-lives-in-its-own-store", WI + "new (kept)", f["store"].has(st[0].res) and any(t.op == "call" and t.a[0].endswith("Instance::new") for t in f["instance"].subs()), show(a[0])[:200])
    cx.floor("instances made", n, 1)
    # what the application asks for is answered from this request
    n = set()
    for pm, da in imports(cx):
        caps = [x for x in da.a[2:] if x.__class__ is T]
        cx.ob("functions-capture-only-this-request", WI + "new (dom_access)", all(r.op == "param" for c in caps for r in [fields(c)[0]]), show(da))
        for q in crun(cx, da, [r"match_\w+$", r"DataContext::\w+$", r"::env$", r"::send$"], branches=anyb, opaque=opq(WNO)):
            if q.end != "ret":
                continue
            sv = calls(q, r"save_value$")
            for e in calls(q, r"match_(history_router|get_env)$"):
                hit = [b for b in brs(q) if b.args[0].op == "discr" and b.args[0].a[0] is e.res and b.args[1] == "Ok"]
                if not hit:
                    continue
                v = sv[-1].args[1] if sv else T("none")
                if e.name.endswith("match_history_router"):
                    n.add("url")
                    u = [t for t in v.subs() if t.op == "f" and t.a[1] == "url" and t.a[0] is T("param", "request")]
                    cx.ob("address-told-is-the-requested-one", WI + "new (dom_access)", len(sv) == 1 and bool(u) and (v.op == "agg" and v.a[1] == "String" or v.op == "call" and v.a[0].endswith("JsValue::str")) and v.a[-1] is u[0], desc(q))
                else:
                    ge = calls(q, r"RequestState::env$")
                    ok = len(ge) == 1 and len(sv) == 1 and copy_of(ge[0].args[0], T("param", "request")) and ge[0].args[1] is T("vf", e.res, "Ok", "0")
                    if ok:
                        w = [b.args[1] for b in brs(q) if b.args[0].op == "discr" and b.args[0].a[0] is ge[0].res]
                        n.add("env " + str(w[:1]))
                        ok = w == ["Some"] and v.op == "agg" and v.a[1] == "String" and v.a[3] is T("vf", ge[0].res, "Some", "0") or w == ["None"] and v.op == "agg" and v.a[1] == "Null"
                    cx.ob("environment-told-is-this-request's", WI + "new (dom_access)", ok, desc(q))
    cx.ob("address-and-environment-are-answered", WI + "new (dom_access)", n >= {"url", "env ['Some']", "env ['None']"}, str(sorted(n)))
    W = S + "request_state::RequestState::env"
    for p in cx.run(W, [r"HashMap::\w+$"], unit=U, branches=anyb):
        g = calls(p, r"HashMap::get$")
        ok = p.end == "ret" and len(g) == 1 and has_field(g[0].args[0], "env") and g[0].args[1] is T("param", "name")
        r = p.ret
        good = ok and (agg_of(r, "Option", "None") and any(b.args[1] == "None" for b in brs(p)) or some(r) is T("vf", g[0].res, "Some", "0") or r is g[0].res)
        cx.ob("variable-is-looked-up-by-name", W, good, desc(p))
    handler(cx)


def handler(cx):
    """the address a page is rendered for is the one requested, with its query"""
    H = S + "serve_run::handler"
    seen = set()
    for p in arun(cx, H, [r"ServerState::request$", r"Uri::\w+$", r"RwLock::\w+$", r"String::push\w*$"], branches=anyb, opaque=opq(r"ServerState::request$|add_watch_script$|ResponseState")):
        if p.end != "ret":
            continue
        r = calls(p, r"ServerState::request$")
        if not cx.ob("one-rendering-per-request", H, len(r) == 1, desc(p)):
            continue
        u = r[0].args[1]
        path = [t for t in u.subs() if t.op == "call" and t.a[0].endswith("Uri::path") and fields(t.a[2])[0].op == "param"]
        q = [b for b in brs(p) if b.args[0].op == "discr" and "Option" in str(b.args[0].a[1]) and fields(b.args[0].a[0])[0].op == "param" and b.name == "="]
        w = q[0].args[1] if q else None
        seen.add(w)
        if w == "None":
            ok = len(path) == 1 and joined(p, u) == [path[0]]
        else:
            qt = T("vf", q[0].args[0].a[0], "Some", "0") if q else None
            ok = len(path) == 1 and joined(p, u) == [path[0], "?", qt]
        cx.ob("address-is-path-and-query", H, ok, show(u))
    cx.ob("both-forms-of-address", H, seen == {"None", "Some"}, str(seen))


def text(p, u):
    """flat() of a text that may also be put together by pushing"""
    out = flat(u)
    for e in p.trace:
        if e.kind == "call" and e.args and e.args[0] is u and re.search(r"String::(push|push_str)$", e.name):
            x = e.args[1]
            out += [chr(x.a[0])] if x.op == "c" and isinstance(x.a[0], int) else flat(x)
    return out


def flat(u):
    """the pieces a formatted text is made of, in order"""
    if u.op != "fmt":
        return [u.a[0]] if u.op == "c" else [u]
    out = []
    for x in u.a:
        if x.__class__ is T:
            out += flat(x.a[1]) if x.op == "disp" and x.a[1].op in ("fmt", "c") else [x.a[1] if x.op == "disp" else x.a[0] if x.op == "c" else x]
        elif x != "":
            out.append(x)
    return out


# ------------------------------------------------------------------ S03
SRQ = S + "html::send_request::"


def spawned(cx, p, key):
    """closures of the tasks started on the path"""
    return [e.args[0] for e in calls(p, r"tokio.*spawn$") if e.args[0].op == "clo"]


@check("S03", (U,))
def s03(cx):
    W = HR + "process_message"
    by = message_paths(cx)
    m = T("param", "message")
    rq, cb = T("vf", m, "FetchRequest", "request"), T("vf", m, "FetchRequest", "callback_id")
    fetch = T("f", T("param", "self"), "fetch")
    is_fetch = lambda t: ends_field(t, "fetch") and root_is_param(t, "self")
    got, tasks = set(), set()
    for p in by.get("FetchRequest", []):
        w = W + " (FetchRequest)"
        look = [e for e in calls(p, r"HashMap::(get|get_mut|entry|contains_key|remove)$")]
        sp, ins, push = calls(p, r"tokio.*spawn$"), calls(p, r"(HashMap|Entry)::(insert|or_insert)$"), calls(p, r"Vec::push$")
        sent = calls(p, r"WasmInstance::send_fetch_response$")
        ok = bool(look) and all(is_fetch(e.args[0]) and e.args[1] is rq for e in look)
        cx.ob("looks-up-the-request-itself", w, ok, desc(p))
        st = [v for t, v, h in variants_on(p, "FetchStatus") if h == "=" and any(t.has(e.res) for e in look if e.res is not None)]
        if not st:
            got.add("new")
            ok = len(sp) == 1 and len(ins) == 1 and not sent
            if ok:
                e = ins[0]
                st0 = e.args[-1]
                at = is_fetch(e.args[0]) and e.args[1] is rq if len(e.args) == 3 else any(l.res is not None and e.args[0].has(l.res) for l in look)
                cbs = st0.a[3] if agg_of(st0, "FetchStatus", "Requested") else T("none")
                ok = at and [x for h, x in contents(p, cbs)] == [cb] and all(x.args[0] is cbs for x in push)
            cx.ob("first-asker-sends-the-request-and-waits", w, ok, desc(p))
            for c in spawned(cx, p, "f"):
                tasks.add(c)
        elif st[-1] == "Requested":
            got.add("waiting")
            ok = not sp and not ins and not sent and len(push) == 1 and push[0].args[1] is cb and has_field(push[0].args[0], "callbacks") and any(push[0].args[0].has(e.res) for e in look)
            cx.ob("second-asker-waits-for-the-same-answer", w, ok, desc(p))
        else:
            got.add("answered")
            r = T("vf", [t for t, v, h in variants_on(p, "FetchStatus")][-1], "Response", "response")
            ok = not sp and not ins and not push and len(sent) == 1 and sent[0].args[1] is cb and same_content(sent[0].args[2], r)
            cx.ob("late-asker-gets-the-known-answer", w, ok, desc(p))
    cx.ob("all-three-states-handled", W + " (FetchRequest)", got == {"new", "waiting", "answered"}, str(got))
    for c in sorted(tasks):
        n = 0
        for q in crun(cx, c, [r"send_request$", r"::send$", "poll"], branches=anyb, suspend=True, opaque=opq(r"send_request$")):
            if q.end != "ret":
                continue
            n += 1
            a, s = calls(q, r"html::send_request::send_request$"), calls(q, r"UnboundedSender::send$")
            ok = len(a) == 1 and a[0].args[0] is rq and len(s) == 1 and ends_field(s[0].args[0], "sender")
            if ok:
                v = s[0].args[1]
                f = afields(v) if agg_of(v, "Message", "FetchResponse") else {}
                ok = f.get("request") is rq and f.get("response") is T("await", a[0].res)
            cx.ob("task-sends-the-request-once-and-reports-its-answer", W + " (task)", ok, desc(q))
        cx.ob("task-sends-the-request-once-and-reports-its-answer", W + " (task)", n > 0, "never ends")
    cx.floor("request tasks", len(tasks), 1)
    # the answer goes to everyone who waits, and is kept
    rq, rs = T("vf", m, "FetchResponse", "request"), T("vf", m, "FetchResponse", "response")
    n = 0
    for p in by.get("FetchResponse", []):
        w = W + " (FetchResponse)"
        rm, ins, sent = calls(p, r"HashMap::(remove|get_mut|get)$"), calls(p, r"HashMap::insert$"), calls(p, r"WasmInstance::send_fetch_response$")
        cx.ob("looks-up-the-request-itself", w, len(rm) == 1 and is_fetch(rm[0].args[0]) and rm[0].args[1] is rq, desc(p))
        last = ins[-1].args[2] if ins else T("none")
        ok = len(ins) == 1 and is_fetch(ins[0].args[0]) and ins[0].args[1] is rq and agg_of(last, "FetchStatus", "Response") and same_content(last.a[3], rs)
        cx.ob("answer-is-kept-for-later-askers", w, ok, desc(p))
        known = {v for t, v, h in variants_on(p, "FetchStatus") if h == "=" and rm and t.has(rm[0].res)}
        if known == {"Requested"}:
            doms = [e.args[0].a[0].a[0] for e in brs(p) if e.args[0].op == "discr" and e.args[0].a[0].op == "next"]
            cx.ob("everyone-waiting-is-visited", w, finished(p, lambda d: has_field(d, "callbacks")), desc(p))
            for d in set(doms):
                seen = [e for e in brs(p) if e.args[0].op == "discr" and e.args[0].a[0] is T("next", d) and e.args[1] == "Some"]
                if seen:
                    n += 1
                    ok = len(sent) == 1 and sent[0].args[1] is T("item", d) and same_content(sent[0].args[2], rs) and has_field(d, "callbacks") and (not rm or d.has(rm[0].res))
                    cx.ob("everyone-waiting-gets-the-answer", w, ok, desc(p))
                else:
                    cx.ob("nobody-else-is-called", w, not sent, desc(p))
        else:
            cx.ob("nobody-else-is-called", w, not sent, desc(p))
    cx.floor("waiting askers served", n, 1)
    # how the answer reaches the application
    W = WI + "send_fetch_response"
    r, kinds = T("param", "response"), set()
    for p in cx.run(W, [r"wasm_callback$", r"Vec::push$"], unit=U, opaque=opq(r"wasm_callback$"), branches=anyb):
        if p.end != "ret":
            continue
        c = calls(p, r"wasm_callback$")
        ok = len(c) == 1 and c[0].args[1] is T("param", "callback_id")
        v = c[0].args[2] if ok else T("none")
        items = [x for h, x in contents(p, v.a[3])] if agg_of(v, "JsValue", "List") else []
        if cx.ob("application-gets-three-values", W, ok and len(items) == 3, show(v)[:200]):
            s, st, b = items
            ok = s.op == "call" and s.a[0].endswith("JsValue::bool") and s.a[2] is T("f", r, "success") or s.op == "agg" and s.a[1] in ("True", "False") and any(x.args[0] is T("f", r, "success") and x.args[1] == (s.a[1] == "True") for x in brs(p))
            cx.ob("success-is-told", W, ok, show(s))
            cx.ob("status-is-told", W, st.op == "agg" and st.a[1] == "U32" and st.a[3] is T("f", r, "status"), show(st))
            k = [v_ for t, v_, h in variants_on(p, "RequestBody")]
            want = {"Text": "String", "Json": "Json", "Binary": "Vec"}
            kinds |= set(k[-1:])
            cx.ob("body-is-told-as-its-kind", W, bool(k) and b.op == "agg" and b.a[1] == want.get(k[-1]) and b.a[3] is T("vf", T("f", r, "body"), k[-1], "0"), show(b))
    cx.ob("every-kind-of-body", W, kinds == {"Text", "Json", "Binary"}, str(kinds))
    # when are two requests the same
    F = "<" + S + "wasm::message::FetchRequest as "
    cr = cx.crate(U)
    a = [x for n_, x in cr.adts.items() if n_.endswith("message::FetchRequest")]
    names = [f["n"] for f in a[0]["v"][0]["f"]] if a else []
    cx.floor("fields of a request", len(names), 4)
    eqs = 0
    for p in cx.run(F + "std::cmp::PartialEq>::eq", [r"PartialEq>::(eq|ne)$"], unit=U, branches=anyb):
        cmp_ = {}
        for b in brs(p) + [None]:
            t, val = (b.args[0], b.args[1]) if b is not None else (p.ret, None)
            if t.op == "bin" and t.a[0] == "Eq":
                l, r_ = t.a[1], t.a[2]
                cx.ob("compares-like-with-like", F + "PartialEq", l.op == r_.op == "f" and l.a[1] == r_.a[1] and {l.a[0], r_.a[0]} == {T("param", "self"), T("param", "other")}, show(t))
                cmp_[l.a[1]] = val
        v = ev(p.ret, {})
        if v == 0:
            cx.ob("differs-only-if-a-field-differs", F + "PartialEq", 0 in cmp_.values(), desc(p))
        else:
            eqs += 1
            cx.ob("equal-only-if-every-field-is", F + "PartialEq", set(cmp_) == set(names) and 0 not in cmp_.values(), f"{sorted(cmp_)} of {names}: " + desc(p))
    cx.floor("ways to be equal", eqs, 1)
    hs = 0
    for p in cx.run(F + "std::hash::Hash>::hash", [r"Hash>::hash$", r"sort\w*$", "BTree", r"collect$"], unit=U, branches=anyb):
        for i, e in ncalls(p, r"Hash>::hash$"):
            hs += 1
            r_, fs = fields([t for t in e.args[0].subs() if t.op == "param"] and strip_items(e.args[0]))
            cx.ob("hash-uses-only-compared-fields", F + "Hash", r_ is T("param", "self") and bool(fs) and fs[0] in names, show(e.args[0]))
            if fs and "item" in [t.op for t in e.args[0].subs()]:
                before = [x for x in p.trace[:i] if x.kind == "call" and (re.search(r"::sort\w*$", x.name) and x.name.rsplit("::", 1)[-1] in ("sort", "sort_unstable") or "BTree" in x.name)]
                cx.ob("equal-requests-hash-in-the-same-order", F + "Hash", bool(before), "entries are hashed in the iteration order of the hash map: " + desc(p))
    cx.floor("hashed parts", hs, 4)


def strip_items(t):
    """the field chain under item()/index projections"""
    while True:
        r, fs = fields(t)
        if r.op in ("item", "index", "enum", "next") and r.a and r.a[0].__class__ is T:
            t = r.a[0]
        else:
            return t


def same_content(t, src):
    return copy_of(t, src)


# ------------------------------------------------------------------ S04
SW = [r"RequestBuilder::\w+$", r"reqwest::(\w+::)*Client\w*::\w+$", r"HashMap::\w+$", "from_bytes$", r"HeaderMap::get$", "from_slice$", r"String::from_utf8", r"::pop_front$", r"::(first|nth|next|split_once)$"]


def trimmed(t, src, case):
    """src with surrounding space removed and its case changed, in either order"""
    ops = []
    while t.op == "call" and len(t.a) == 3:
        l = t.a[0].rsplit("::", 1)[-1]
        if l not in ("as_bytes", "as_ref", "as_str", "to_string", "to_owned", "clone", "into", "from", "deref", "trim", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase"):
            break
        if "trim" in l or "case" in l:
            ops.append(l.replace("ascii_", ""))
        t = t.a[2]
    return (t is src or src is None) and sorted(ops) == sorted(["trim", case]) and (t if src is None else True)


def turns(p, t):
    """t is a value accumulated over a loop: its value before the loop and after each turn on this path"""
    return [e.args[1] for e in p.trace if e.kind == "init" and e.args[0] is t], [e.args[1] for e in p.trace if e.kind == "carry" and e.args[0] is t]


def element(p, d):
    """(what is gone through to make the elements of d, the elements made on this path)"""
    if d.op == "mapped":
        return d.a[0], [] if d.a[1].op == "item" and d.a[1].a[0].op == "empty" else [d.a[1]]
    ins = [(i, e) for i, e in enumerate(p.trace) if e.kind == "call" and e.args and e.args[0] is d and re.search(r"::(insert|push|push_back)$", e.name)]
    local = d.op in ("empty", "call") and not any(x.op == "param" for x in d.subs()) or d.op == "call" and d.a[0].endswith("::with_capacity")
    if local:
        src = {x.a[0] for i, e in ins for a in e.args[1:] for x in a.subs() if x.op == "item"} or {x for x, w in iters(p).items() if x is not d and w == "None"}
        if len(src) == 1 and finished(p, lambda x: x in src):
            s = src.pop()
            turn = [i for i, b in enumerate(p.trace) if b.kind == "br" and b.args[0].op == "discr" and b.args[0].a[0] is T("next", s)]
            made = [e for i, e in ins if turn and turn[0] < i < turn[-1]]
            if all(e in made or e.name.endswith("::insert") for i, e in ins) and len(made) == (len(turn) > 1):
                return s, [T("agg", "tuple", None, ("0", "1"), *e.args[1:3]) if len(e.args) > 2 else e.args[1] for e in made]
        return None, []
    return d, [T("item", d)]


def part(t, i):
    return t.a[3 + i] if t.op == "agg" else T("f", t, str(i))


@check("S04", (U,))
def s04(cx):
    W = SRQ + "send_request"
    rq = T("param", "request_params")
    F = lambda n: T("f", rq, n)
    ps = arun(cx, W, SW, opaque=opq("convert_to_"), branches=anyb, suspend=True, carries=True)
    bodies, answers, hdr, fails, defaults = set(), set(), 0, 0, set()
    for p in ps:
        if not cx.ob("request-cannot-panic", W, p.end == "ret", desc(p)) or not cx.ob("gives-an-answer", W, agg_of(p.ret, "FetchResponse"), desc(p)):
            continue
        f = afields(p.ret)
        made, snd = calls(p, r"Client::(request|get|post|put|delete|head|patch|execute)$"), calls(p, r"RequestBuilder::send$")
        cx.ob("sent-at-most-once", W, len(snd) <= 1 and len(made) <= 1, desc(p))
        resp = T("await", snd[0].res) if snd else None
        if made:
            m, u = made[0].args[1:3] if made[0].name.endswith("::request") else (None, None)
            pm = [e for e in calls(p, r"Method::from_bytes$")]
            ok = len(pm) == 1 and m is T("vf", pm[0].res, "Ok", "0") and trimmed(pm[0].args[0], F("method"), "to_uppercase")
            cx.ob("method-is-the-one-asked-for", W, bool(ok), desc(p))
            cx.ob("address-is-the-one-asked-for", W, u is F("url"), show(u) if u else "")
        if snd:
            # the builder chain back from send: header(), headers(), body() on what the client made, in any order
            b, body, src, turn, todo = snd[0].args[0], None, None, [], 0
            while todo < 50:
                todo += 1
                if b.op == "call" and b.a[0].endswith("RequestBuilder::body") and body is None:
                    b, body = b.a[2], b.a[3]
                elif b.op == "loop":
                    before, after = turns(p, b)
                    for up in after:
                        ok = up.op == "call" and up.a[0].endswith("RequestBuilder::header") and up.a[2] is b
                        turn.append(up.a[3:5] if ok else (T("none"), T("none")))
                    if len(before) != 1:
                        break
                    src, b = "loop", before[0]
                else:
                    break
            cx.ob("builds-on-the-request-made", W, bool(made) and b is made[0].res, show(snd[0].args[0]))
            # headers: every one of them, under its name
            hs = F("headers")
            ds = [d for d in iters(p) if element(p, d)[0] is hs and any(x.has(d) or element(p, d)[1] and x in element(p, d)[1][0].subs() for t_ in turn for x in t_)] or [d for d in iters(p) if element(p, d)[0] is hs]
            cx.ob("every-header-is-sent", W, src == "loop" and bool(ds) and finished(p, lambda d: d in ds), desc(p))
            for k, v in turn:
                good = False
                for d in ds:
                    its = element(p, d)[1]
                    if not its and element(p, d)[0] is hs:
                        good = True
                    for x in its:
                        nm, va = part(x, 0), part(x, 1)
                        here = (k, v) == (T("f", T("item", d), "0"), T("f", T("item", d), "1")) or (k, v) == (nm, va)
                        if here:
                            k1, v1 = nm, va
                        else:
                            k1, v1 = k, v
                        good = good or bool(trimmed(k1, T("f", T("item", hs), "0"), "to_lowercase")) and plain(v1) is T("f", T("item", hs), "1")
                cx.ob("header-has-its-name-and-value", W, good, f"{show(k)}: {show(v)}")
                hdr += 1
            # body
            v = [(t, w) for t, w, h in variants_on(p, "::Option") if t is F("body") and h == "="]
            k = [w for t, w, h in variants_on(p, "RequestBody") if h == "=" and F("body") in t.subs()]
            kind = k[0] if k else "none" if v and v[0][1] == "None" else None
            bodies.add(kind)
            cont = T("vf", T("vf", F("body"), "Some", "0"), kind, "0")
            if kind == "none":
                cx.ob("no-body-when-none-was-given", W, body is None, show(body) if body else "")
            elif kind in ("Text", "Binary"):
                cx.ob("body-is-the-one-given", W, body is cont, show(body) if body else "none")
            elif kind == "Json":
                x = T("x") if body is None else body
                ok = x.op == "vf" and x.a[1] == "Ok" and x.a[0].op == "call" and re.search(r"serde_json.*to_(string|vec)$", x.a[0].a[0])
                ok = ok and x.a[0].a[2].op == "call" and x.a[0].a[2].a[0].endswith("convert_to_jsvalue") and x.a[0].a[2].a[2] is cont
                cx.ob("body-is-the-one-given", W, bool(ok), show(x))
            # a content type of its own only when the application gave none
            ct = [e for e in calls(p, r"HashMap::(insert|entry)$") if len(e.args) > 1 and plain(e.args[1]).op == "c" and plain(e.args[1]).a[0] == "content-type"]
            has = [b_ for b_ in brs(p) if b_.args[0].op == "call" and b_.args[0].a[0].endswith("contains_key") and plain(b_.args[0].a[3]).a[:1] == ("content-type",)]
            for e in ct:
                want = {"Text": "text/plain", "Json": "application/json"}.get(kind)
                ok = want and plain(e.args[2]).op == "c" and str(plain(e.args[2]).a[0]).startswith(want)
                guard = has and has[0].args[1] == 0 and has[0].args[0].a[2] is e.args[0] or e.name.endswith("entry")
                defaults.add(kind)
                cx.ob("default-content-type-fits-the-body", W, bool(ok) and e.args[0] in ds, desc(p))
                cx.ob("given-content-type-is-kept", W, bool(guard), desc(p))
            own = [e for d in ds for e in p.trace if e.kind == "call" and e.args and e.args[0] is d and element(p, d)[1] and d.op != "mapped" and any(x.op == "item" for a in e.args[1:2] for x in a.subs())]
            others = [e for e in calls(p, r"HashMap::(insert|remove|clear|retain|entry)$") if e not in ct and e not in own and (e.args[0] in ds or any(x is F("headers") for x in e.args[0].subs()))]
            cx.ob("no-header-added-or-removed", W, not others, desc(p))
        # the answer
        if is_true(f["success"]):
            ok_ = T("vf", resp, "Ok", "0") if resp else None
            st = f["status"]
            while st.op == "cast" and st.a[2] in ("u16", "u32", "u64", "i32", "i64"):
                st = st.a[0]
            cx.ob("status-is-the-server's", W, st.op == "call" and st.a[0].endswith("as_u16") and st.a[2].op == "call" and st.a[2].a[0].endswith("Response::status") and st.a[2].a[2] is ok_, show(f["status"]))
            b = f["body"]
            raw = [x for x in b.subs() if x.op == "await" and x.has(ok_) and x is not resp]
            ok = len(raw) >= 1 and agg_of(b, "RequestBody")
            raw = T("vf", raw[0], "Ok", "0") if ok else None
            inner = b.a[3] if ok else T("none")
            ty = response_type(p, ok_)
            answers.add(ty)
            want = {"application/json": "Json", "text/plain": "Text"}.get(ty, "Binary")
            cx.ob("answer-kind-follows-its-content-type", W, ok and b.a[1] == want and (ty is not None), f"{ty}: {show(b)[:200]}")
            if ok and b.a[1] == "Json":
                good = inner.op == "call" and inner.a[0].endswith("convert_to_jsjson") and inner.a[2].op == "vf" and inner.a[2].a[1] == "Ok" and re.search(r"from_(slice|reader)$", inner.a[2].a[0].a[0]) and same_bytes(inner.a[2].a[0].a[2], raw)
            elif ok and b.a[1] == "Text":
                good = inner.op == "vf" and inner.a[1] == "Ok" and inner.a[0].a[0].endswith("String::from_utf8") and same_bytes(inner.a[0].a[2], raw)
            else:
                good = same_bytes(inner, raw)
            cx.ob("answer-body-is-the-server's", W, ok and bool(good), show(b)[:300])
        else:
            err = [b for b in brs(p) if b.args[0].op == "discr" and b.args[1] == "Err"]
            fails += 1
            cx.ob("failure-only-after-an-error", W, bool(err), desc(p))
            ok = is_false(f["success"]) and ev(f["status"], {}) == 0 and agg_of(f["body"], "RequestBody", "Text") and (f["body"].a[3].op in ("c", "empty") and f["body"].a[3].a[0] in ("",) or "::new" in show(f["body"].a[3]) or f["body"].a[3].op == "empty")
            cx.ob("failure-says-so", W, ok, show(p.ret))
    cx.ob("every-kind-of-body", W, bodies == {"none", "Text", "Json", "Binary"}, str(bodies))
    cx.ob("every-kind-of-answer", W, {"application/json", "text/plain", "other"} <= answers, str(answers))
    cx.ob("text-and-json-have-a-content-type", W, defaults == {"Text", "Json"}, str(defaults))
    cx.floor("header turns", hdr, 1)
    cx.floor("failures", fails, 4)
    json_out(cx)
    json_in(cx)


def same_bytes(t, raw):
    while t.op == "call" and len(t.a) == 3 and re.search(r"::(to_vec|as_slice|as_ref|deref|into|from|clone|to_owned|into_owned)$", t.a[0]):
        t = t.a[2]
    return raw is not None and t is raw


def response_type(p, resp):
    """the content type the answer was found to have on this path: its name, 'other', or None"""
    res = None
    for b in brs(p):
        t = b.args[0]
        if t.op == "discr" and t.a[0].op == "call" and (t.a[0].a[0].endswith("HeaderMap::get") or "to_str" in t.a[0].a[0] or "pop_front" in t.a[0].a[0]) and resp in t.subs():
            if b.args[1] in ("None", "Err"):
                return "other"
        if t.op == "discr" and t.a[0].op == "next" and resp in t.subs() and b.args[1] == "None":
            return "other"
        if t.op == "bin" and t.a[0] == "Eq" and resp in t.subs():
            name = [x.a[0] for x in t.a[1:] if x.op == "c"]
            x = [x for x in t.a[1:] if x.op != "c"]
            if not name or not x or not re.match(r"[\w-]+/[\w-]+$", str(name[0])):
                continue
            src = trimmed(x[0], None, "to_lowercase")
            if src is False or not header_start(src, resp):
                return None
            if b.args[1] == 1 and b.name == "=":
                return name[0]
            res = "other"
    return res


def header_start(t, resp):
    """the part of the content-type header before the first semicolon"""
    s = show(t)
    get = [x for x in t.subs() if x.op == "call" and x.a[0].endswith("HeaderMap::get") and plain(x.a[3]).op == "c" and plain(x.a[3]).a[0] == "content-type" and x.a[2].has(resp)]
    cut = [x for x in t.subs() if x.op == "call" and re.search(r"::(split|split_once|splitn)$", x.a[0]) and any(y.op == "c" and y.a[0] in (";", 59) for y in x.a[2:])]
    pick = [x for x in t.subs() if x.op == "call" and re.search(r"::(pop_front|next|first)$", x.a[0])] + [x for x in t.subs() if x.op in ("next", "item")] + [x for x in cut if x.a[0].endswith("split_once")]
    return bool(get) and bool(cut) and bool(pick) and "pop_back" not in s and "last" not in s


def entries_mapped(r, var, pay, fn):
    """an object whose entries are collected from those of the payload: None if it is made otherwise"""
    m = r.a[3] if var == "Object" else None
    if m is None or m.op != "mapped":
        return None
    it, x = T("item", pay), m.a[1]
    if m.a[0] is not pay:
        return "wrong"
    if x.op == "item" and x.a[0].op == "empty" and x.a[0].has(pay):
        return "empty"
    v = fields_of_pair(x)
    ok = v and v[0] is T("f", it, "0") and v[1].op == "call" and v[1].a[0].endswith(fn) and v[1].a[2] is T("f", it, "1")
    return "entry" if ok else "wrong"


def fields_of_pair(x):
    return x.a[3:] if x.op == "agg" and str(x.a[0]) == "tuple" and len(x.a) == 5 else None


def json_out(cx):
    W = SRQ + "convert_to_jsvalue"
    v0 = T("param", "value")
    kinds = set()
    for p in cx.run(W, [r"from_f64$", r"Map::insert$", "unwrap", "expect", r"Vec::push$"], unit=U, branches=anyb, panics=True):
        k = [w for t, w, h in variants_on(p, "JsJson") if t is v0 and h == "="]
        if not cx.ob("conversion-cannot-panic", W, p.end == "ret", desc(p)) or not cx.ob("every-kind-of-json", W, bool(k), desc(p)):
            continue
        k, r = k[0], p.ret
        kinds.add(k)
        pay = T("vf", v0, k, "0")
        if not cx.ob("kind-is-kept", W, r.op in ("agg", "vf") or r.op == "call", show(r)):
            continue
        var = r.a[1] if r.op == "agg" else None
        if k in ("True", "False"):
            ok = var == "Bool" and ev(r.a[3], {}) == (1 if k == "True" else 0)
        elif k == "Null":
            ok = var == "Null"
        elif k == "String":
            ok = var == "String" and r.a[3] is pay
        elif k == "Number":
            ok, why = number(p, r, pay)
            cx.ob("number-keeps-its-value", W, ok, why + ": " + desc(p))
            continue
        elif k == "List":
            m = r.a[3] if var == "Array" else T("none")
            es = [x for h, x in contents(p, m)]
            rec = [x for x in m.subs() if x.op == "call" and x.a[0].endswith("convert_to_jsvalue")] or [x for x in es if x.op == "call" and x.a[0].endswith("convert_to_jsvalue")]
            ok = var == "Array" and (m.op == "mapped" and m.a[0] is pay and (m.a[1].op == "item" or m.a[1] in rec) or all(x in rec for x in es)) and all(x.a[2] is T("item", pay) for x in rec)
            kinds.add("item") if rec else None
        else:
            ins = calls(p, r"Map::insert$")
            seen = [d for d, w in iters(p).items()]
            good = all(e.args[1] is T("f", T("item", pay), "0") and e.args[2].op == "call" and e.args[2].a[0].endswith("convert_to_jsvalue") and e.args[2].a[2] is T("f", T("item", pay), "1") for e in ins)
            some_ = any(b.args[1] == "Some" for b in brs(p) if b.args[0].op == "discr" and b.args[0].a[0].op == "next")
            ok = var == "Object" and good and len(ins) == (1 if some_ else 0) and finished(p, lambda d: d is pay or d.has(pay))
            many = entries_mapped(r, var, pay, "convert_to_jsvalue")
            if many:
                ok = many != "wrong" and not ins
                kinds.add("entry") if many == "entry" else None
            if ins:
                kinds.add("entry")
        cx.ob("kind-is-kept", W, ok, f"{k}: {show(r)[:200]}")
    cx.ob("every-kind-of-json", W, kinds >= {"True", "False", "Null", "String", "Number", "List", "Object", "item", "entry"}, str(sorted(kinds)))


def number(p, r, pay):
    if r.op != "agg" or r.a[1] not in ("Number", "Null"):
        r_ = r
        if r.op == "call" and re.search(r"Value.*::from$|::into$", r.a[0]):
            return r.a[2] is pay, "from"
        return False, "not a number: " + show(r)[:100]
    ff = [b for b in brs(p) if b.args[0].op == "discr" and b.args[0].a[0].op == "call" and b.args[0].a[0].a[0].endswith("from_f64")]
    if r.a[1] == "Null":
        ok = bool(ff) and ff[-1].args[1] == "None" and ff[-1].args[0].a[0].a[2] is pay
        return ok, "null only for what is not a number"
    x = r.a[3]
    if ff and ff[-1].args[1] == "Some":
        return x is T("vf", ff[-1].args[0].a[0], "Some", "0") and ff[-1].args[0].a[0].a[2] is pay, "the number itself"
    c = x
    while c.op == "call" and len(c.a) == 3 and re.search(r"::(from|into)$", c.a[0]):
        c = c.a[2]
    whole = [b for b in brs(p) if b.args[0].op == "bin" and b.args[0].a[0] == "Eq" and b.args[1] == 1 and set(b.args[0].a[1:]) == {pay, T("cast", c, c.a[2] if c.op == "cast" else "", "f64")}]
    return c.op == "cast" and c.a[0] is pay and bool(whole), "as an integer only when it is one"


def json_in(cx):
    W = SRQ + "convert_to_jsjson"
    v0 = T("param", "value")
    kinds = set()
    for p in cx.run(W, [r"HashMap::insert$", r"as_[fiu]64$", r"Vec::push$"], unit=U, branches=anyb):
        k = [w for t, w, h in variants_on(p, "Value") if t is v0 and h == "="]
        if not k:
            continue
        k, r = k[0], p.ret
        if p.end != "ret":
            # only a number that is neither a float nor an integer
            none = [b for b in brs(p) if b.args[0].op == "discr" and b.args[1] == "None" and re.search(r"as_[fiu]64$", show(b.args[0].a[0]).split("(")[0])]
            cx.ob("conversion-cannot-panic", W, k == "Number" and len(none) >= 1, desc(p))
            continue
        pay = T("vf", v0, k, "0")
        var = r.a[1] if r.op == "agg" else None
        if k == "Bool":
            b = [x.args[1] for x in brs(p) if x.args[0] is pay]
            ok = var in ("True", "False") and b and (b[0] == 1) == (var == "True") if b else r.op == "call" and pay in r.a
            kinds.add(var)
        elif k == "Null":
            ok = var == "Null"
        elif k == "String":
            ok = var == "String" and r.a[3] is pay
        elif k == "Number":
            x = r.a[3] if var == "Number" else T("none")
            while x.op == "cast":
                x = x.a[0]
            ok = x.op == "vf" and x.a[1] == "Some" and x.a[0].op == "call" and re.search(r"Number::as_[fiu]64$", x.a[0].a[0]) and x.a[0].a[2] is pay
        elif k == "Array":
            m = r.a[3] if var == "List" else T("none")
            rec = [x for x in m.subs() if x.op == "call" and x.a[0].endswith("convert_to_jsjson")] + [x for h, x in contents(p, m) if x.op == "call"]
            ok = var == "List" and all(x.a[0].endswith("convert_to_jsjson") and x.a[2] is T("item", pay) for x in rec)
            kinds.add("item") if rec else None
        else:
            ins = calls(p, r"HashMap::insert$")
            good = all(e.args[1] is T("f", T("item", pay), "0") and e.args[2].op == "call" and e.args[2].a[0].endswith("convert_to_jsjson") and e.args[2].a[2] is T("f", T("item", pay), "1") for e in ins)
            some_ = any(b.args[1] == "Some" for b in brs(p) if b.args[0].op == "discr" and b.args[0].a[0].op == "next")
            ok = var == "Object" and good and len(ins) == (1 if some_ else 0) and finished(p, lambda d: d.has(pay))
            many = entries_mapped(r, var, pay, "convert_to_jsjson")
            if many:
                ok = many != "wrong" and not ins
                kinds.add("entry") if many == "entry" else None
            if ins:
                kinds.add("entry")
        kinds.add(k)
        cx.ob("kind-is-kept", W, bool(ok), f"{k}: {show(r)[:200]}")
    cx.ob("every-kind-of-json", W, kinds >= {"Bool", "True", "False", "Null", "String", "Number", "Array", "Object", "item", "entry"}, str(sorted(map(str, kinds))))


# ------------------------------------------------------------------ S05
AE = S + "html::element::AllElements::"
EC = S + "html::element_children::ElementChildren::"
OM = S + "html::ordered_map::OrderedMap::"
MUT = re.compile(r"(HashMap|OccupiedEntry|VacantEntry|Entry)::(insert|remove|clear|retain|drain|remove_entry)$|Vec(Deque)?::(push|push_back|push_front|insert|remove|pop|clear|truncate|retain|swap|sort\w*|reverse|extend)$|OrderedMap::(set|remove)$|ElementChildren::(insert_before|remove)$")


def effects(p):
    """what the path changes, in order: (kind, target, args)"""
    out = []
    for e in p.trace:
        if e.kind == "call" and MUT.search(e.name):
            out.append((e.name.rsplit("::", 2)[-2] + "." + e.name.rsplit("::", 1)[-1], e.args[0], list(e.args[1:])))
        elif e.kind == "store":
            out.append(("store", e.args[0], [e.args[1]]))
    return out


def self_field(t, n):
    return t is T("f", T("param", "self"), n)


def node_at(t, key, field):
    """t is `field` of the element kept under key"""
    r = t
    if not (r.op == "f" and r.a[1] == field):
        return False
    r = r.a[0]
    if not (r.op == "vf" and r.a[1] == "Element"):
        return False
    r = r.a[0]
    return r.op == "vf" and r.a[1] == "Some" and r.a[0].op == "call" and re.search(r"HashMap::get(_mut)?$", r.a[0].a[0]) and self_field(r.a[0].a[2], "all") and r.a[0].a[3] is key


def empty_node(t):
    return agg_of(t, "OrderedMap") and all("::new" in show(v) or v.op == "empty" for v in t.a[3:]) or t.op == "call" and t.a[0].endswith("::new") and len(t.a) == 2


@check("S05", (U,))
def s05(cx):
    W = AE + "feed"
    ps = cx.run(W, [r"HashMap::\w+$", r"OrderedMap::\w+$", r"ElementChildren::\w+$", r"Vec::\w+$", r"Entry::\w+$"], unit=U, branches=anyb, stores=lambda t, v: True,
                opaque=opq(r"OrderedMap::(set|remove|new)$|ElementChildren::(insert_before|remove|new)$"))
    cmds = T("param", "commands")
    cm = T("item", cmds)
    seen = set()
    for p in ps:
        cx.ob("every-command-is-applied-in-order", W, finished(p, lambda d: d is cmds) and set(iters(p)) <= {cmds}, desc(p))
        if not any(b.args[1] == "Some" for b in brs(p) if b.args[0].op == "discr" and b.args[0].a[0].op == "next"):
            cx.ob("nothing-changes-without-a-command", W, p.end == "ret" and not effects(p), desc(p))
            continue
        k = {w for t, w, h in variants_on(p, "DomCommand") if t is cm and h == "="}
        if not cx.ob("every-command-is-known", W, len(k) == 1, desc(p)):
            continue
        k = k.pop()
        seen.add(k)
        g = lambda n: T("vf", cm, k, n)
        ef = effects(p)
        w = f"{W} ({k})"
        ok = False
        if p.end != "ret":
            # only when the page does not have the node the command is about
            miss = [b for b in brs(p) if b.args[0].op == "discr" and (b.args[1] == "None" or b.name == "!" or b.args[1] in ("Text", "Comment")) and any(self_field(x, "all") for x in b.args[0].subs())]
            cx.ob("fails-only-for-a-missing-node", w, bool(miss) and k in ("SetAttr", "RemoveAttr", "InsertBefore"), desc(p))
            continue
        one = ef[0] if len(ef) == 1 else (None, T("none"), [])
        if k == "CreateNode":
            v = one[2][1] if len(one[2]) == 2 else T("none")
            n = v.a[3] if agg_of(v, "Node", "Element") else T("none")
            f = afields(n) if n.op == "agg" else {}
            ok = one[0] == "HashMap.insert" and self_field(one[1], "all") and one[2][0] is g("id") and f.get("name") is g("name") and all(empty_node(f[x]) for x in ("attr", "children") if x in f) and len(f) == 3
        elif k in ("CreateText", "UpdateText", "CreateComment"):
            want = "Comment" if k == "CreateComment" else "Text"
            ok = one[0] == "HashMap.insert" and self_field(one[1], "all") and one[2][0] is g("id") and agg_of(one[2][1], "Node", want) and one[2][1].a[3] is g("value")
            if k == "UpdateText" and one[0] == "store":
                r = one[1]
                ok = r.op == "vf" and r.a[1] == "Text" and r.a[0].op == "vf" and r.a[0].a[1] == "Some" and any(x is g("id") for x in r.subs()) and any(self_field(x, "all") for x in r.subs()) and one[2][0] is g("value")
        elif k == "SetAttr":
            ok = one[0] == "OrderedMap.set" and node_at(one[1], g("id"), "attr") and one[2] == [g("name"), g("value")]
        elif k == "RemoveAttr":
            ok = one[0] == "OrderedMap.remove" and node_at(one[1], g("id"), "attr") and one[2] == [g("name")]
        elif k == "InsertCss":
            v = one[2][0] if one[2] else T("none")
            ok = one[0] == "Vec.push" and self_field(one[1], "css") and v.op == "agg" and list(v.a[3:]) == [g("selector"), g("value")]
        elif k.startswith("Callback"):
            ok = not ef
        elif k.startswith("Remove"):
            had, ef = detach(p, ef, g("id"))
            rest = [(x[0], x[2]) for x in ef if self_field(x[1], "parent") or self_field(x[1], "all")]
            both = {"parent" if self_field(x[1], "parent") else "all" for x in ef if x[0] == "HashMap.remove" and x[2] == [g("id")]}
            ok = had and both == {"parent", "all"} and len(ef) == 2
        elif k == "InsertBefore":
            had, ef = detach(p, ef, g("child"))
            par = [i for i, x in enumerate(ef) if x[0] == "HashMap.insert" and self_field(x[1], "parent") and x[2] == [g("child"), g("parent")]]
            ins = [i for i, x in enumerate(ef) if x[0] == "ElementChildren.insert_before" and node_at(x[1], g("parent"), "children") and x[2] == [g("ref_id"), g("child")]]
            ok = had and len(par) == 1 and len(ins) == 1 and len(ef) == 2
        cx.ob("command-does-what-it-says", w, ok, desc(p))
    cx.ob("every-command-is-known", W, seen == set(variants_of(cx, "dom_command::DomCommand")), str(sorted(seen)))
    children(cx)
    ordered_map(cx)
    rendered(cx)


def detach(p, ef, child):
    """the child leaves the parent it had before; (done where needed, remaining effects)"""
    had = [b for b in brs(p) if b.args[0].op == "discr" and b.args[0].a[0].op == "call" and re.search(r"HashMap::(get|get_mut|remove|insert)$", b.args[0].a[0].a[0]) and self_field(b.args[0].a[0].a[2], "parent") and b.args[0].a[0].a[3] is child]
    rm = [i for i, x in enumerate(ef) if x[0] == "ElementChildren.remove" and x[2] == [child]]
    # the lookup is done before the new parent is recorded
    look = [i for i, e in enumerate(p.trace) if e.kind == "call" and had and e.res is had[0].args[0].a[0]]
    new = [i for i, e in enumerate(p.trace) if e.kind == "call" and re.search(r"HashMap::(insert|remove|clear)$", e.name) and self_field(e.args[0], "parent")]
    if had and (not look or new and new[0] < look[0]):
        return False, ef
    if had and had[0].args[1] == "None" and had[0].name == "=":
        return not rm, ef
    if not had:
        return False, ef
    old = T("vf", had[0].args[0].a[0], "Some", "0")
    # a parent that is gone or cannot have children has no list to leave
    gone = [b for b in brs(p) if b.args[0].op == "discr" and b.args[0].has(old) and (b.args[1] in ("None", "Text", "Comment") or b.name == "!" and "Element" in b.args[1])]
    if gone:
        return not rm, ef
    return len(rm) == 1 and node_at(ef[rm[0]][1], old, "children") and not any(x[0] == "ElementChildren.insert_before" for x in ef[:rm[0]]), [x for i, x in enumerate(ef) if i not in rm]


def core(t):
    """an id, whether optional or not"""
    if agg_of(t, "Option", "Some"):
        return core(t.a[3])
    if t.op == "vf" and t.a[1] == "Some":
        return core(t.a[0])
    return t


def compared(p, a, b):
    """outcomes of comparisons of a with b on the path"""
    out = []
    for e in brs(p):
        t = e.args[0]
        if t.op == "bin" and t.a[0] == "Eq" and {core(t.a[1]), core(t.a[2])} == {core(a), core(b)}:
            out.append(e.args[1])
    return out


def children(cx):
    slf = T("param", "self")
    first, childs = T("f", slf, "first_child"), T("f", slf, "childs")
    got = lambda t, k: t.op == "vf" and t.a[1] == "Some" and t.a[0].op == "call" and re.search(r"HashMap::get(_mut)?$", t.a[0].a[0]) and t.a[0].a[2] is childs and core(t.a[0].a[3]) is core(k)
    # insertion
    W = EC + "insert_before"
    ref, ch = T("param", "ref_id"), T("param", "child")
    n = set()
    for p in cx.run(W, [r"HashMap::\w+$", r"ElementChildren::remove$"], unit=U, branches=anyb, stores=lambda t, v: True, opaque=opq("ElementChildren::remove$")):
        if p.end != "ret":
            cx.ob("fails-only-for-a-missing-node", W, any(1 in compared(p, ref, ch) for _ in [0]) or any(b.args[1] == "None" for b in brs(p) if b.args[0].op == "discr" and b.args[0].has(childs)) or bool(calls(p, r"HashMap::(len|is_empty)$")), desc(p))
            continue
        ef = effects(p)
        ok = bool(ef) and ef[0][0] == "ElementChildren.remove" and ef[0][1] is slf and ef[0][2] == [ch]
        cx.ob("a-node-is-in-the-list-once", W, ok, desc(p))
        ef = ef[1:]
        v = dict()
        for b in brs(p):
            if b.args[0].op == "discr" and b.args[0].a[0] in (ref, first) and b.name == "=":
                v.setdefault(b.args[0].a[0], b.args[1])
        ins = [x for x in ef if x[0] == "HashMap.insert" and x[1] is childs]
        st = [x for x in ef if x[0] == "store"]
        fs = [x for x in st if x[1] is first]
        lk = [x for x in st if x[1] is not first]
        if v.get(ref) == "None" and v.get(first) == "None":
            n.add("only")
            f = afields(ins[0][2][1]) if len(ins) == 1 else {}
            cx.ob("first-child-of-an-empty-list", W, len(ins) == 1 and not lk and ins[0][2][0] is ch and f.get("left") is ch and f.get("right") is ch and len(fs) == 1 and some(fs[0][2][0]) is ch, desc(p))
            continue
        at = ref if v.get(ref) == "Some" else first if v.get(ref) == "None" and v.get(first) == "Some" else None
        if not cx.ob("position-is-known", W, at is not None, desc(p)):
            continue
        n.add("before" if at is ref else "end")
        R = T("vf", at, "Some", "0")
        good = len(ins) == 1 and ins[0][2][0] is ch and len(lk) == 2
        if good:
            f = afields(ins[0][2][1])
            L = f.get("left")
            good = f.get("right") is R and L.op == "f" and L.a[1] == "left" and got(L.a[0], R)
            tgt = {x[1].a[1]: (x[1].a[0], x[2][0]) for x in lk if x[1].op == "f"}
            good = good and set(tgt) == {"left", "right"} and got(tgt["left"][0], R) and tgt["left"][1] is ch and got(tgt["right"][0], L) and tgt["right"][1] is ch
        cx.ob("new-child-is-linked-on-both-sides", W, good, desc(p))
        cmp_ = compared(p, first, ref)
        if fs:
            cx.ob("list-starts-with-the-new-first-child", W, len(fs) == 1 and some(fs[0][2][0]) is ch and cmp_ == [1], desc(p))
        else:
            cx.ob("list-starts-with-the-new-first-child", W, cmp_ == [0] or at is first, desc(p))
    cx.ob("all-positions", W, n == {"only", "before", "end"}, str(n))
    # removal
    W = EC + "remove"
    x = T("param", "node_id")
    n = set()
    for p in cx.run(W, [r"HashMap::\w+$"], unit=U, branches=anyb, stores=lambda t, v: True):
        rm = calls(p, r"HashMap::remove$")
        if p.end != "ret":
            cx.ob("fails-only-for-a-missing-node", W, any(b.args[1] in ("None", 0) for b in brs(p)), desc(p))
            continue
        if not cx.ob("node-leaves-the-list", W, len(rm) == 1 and rm[0].args[0] is childs and rm[0].args[1] is x, desc(p)):
            continue
        ef = [e for e in effects(p) if e[0] != "HashMap.remove"]
        k = outcome(p, p.trace.index(rm[0]))
        nd = T("vf", rm[0].res, "Some", "0")
        l, r = T("f", nd, "left"), T("f", nd, "right")
        if k == "None":
            n.add("absent")
            cx.ob("removing-a-stranger-changes-nothing", W, not ef, desc(p))
            continue
        alone = 1 in compared(p, l, x) or 1 in compared(p, r, x) or any(b.args[0].op == "call" and b.args[0].a[0].endswith("is_empty") and b.args[1] == 1 for b in brs(p))
        fs = [e for e in ef if e[0] == "store" and e[1] is first]
        lk = [e for e in ef if not (e[0] == "store" and e[1] is first)]
        if alone:
            n.add("last")
            cx.ob("last-child-leaves-an-empty-list", W, len(fs) == 1 and agg_of(fs[0][2][0], "Option", "None") and not lk, desc(p))
            continue
        n.add("linked")
        tgt = {e[1].a[1]: (e[1].a[0], e[2][0]) for e in lk if e[0] == "store" and e[1].op == "f"}
        ok = len(lk) == 2 and set(tgt) == {"left", "right"} and got(tgt["left"][0], r) and tgt["left"][1] is l and got(tgt["right"][0], l) and tgt["right"][1] is r
        cx.ob("neighbours-are-linked-to-each-other", W, ok, desc(p))
        cmp_ = compared(p, first, x)
        cx.ob("list-starts-with-the-next-child", W, cmp_ == [1] and len(fs) == 1 and some(fs[0][2][0]) is r or cmp_ == [0] and not fs, desc(p))
    cx.ob("all-cases", W, n == {"absent", "last", "linked"}, str(n))
    # listing
    W = EC + "childs"
    n = set()
    for p in cx.run(W, [r"HashMap::\w+$", r"Vec(Deque)?::\w+$"], unit=U, branches=anyb, stores=lambda t, v: True, carries=True):
        if p.end != "ret":
            continue
        ps_ = [e for e in calls(p, r"::(push|push_back)$") if e.args[0] is p.ret]
        cx.ob("listing-changes-nothing", W, not [e for e in effects(p) if e[0] != "Vec.push" and e[0] != "VecDeque.push_back"], desc(p))
        for e in ps_:
            at = e.args[1]
            before, after = turns(p, at) if at.op == "loop" else ([], [])
            ok = before == [T("vf", first, "Some", "0")] and len(after) == 1 and after[0].op == "f" and after[0].a[1] == "right" and got(after[0].a[0], at)
            cx.ob("children-are-listed-from-the-first-to-the-right", W, ok and len(ps_) == 1, desc(p))
            n.add("turn")
        for d, w in iters(p).items():
            f = afields(d) if d.op == "agg" else {}
            ln = f.get("end")
            n.add("len")
            cx.ob("all-children-are-listed", W, w == "None" and ln is not None and ev(f.get("start"), {}) == 0 and ln.op == "call" and ln.a[0].endswith("HashMap::len") and ln.a[2] is childs, desc(p))
        if not iters(p):
            none = any(b.args[1] == 1 and b.args[0].op == "call" and b.args[0].a[0].endswith("is_empty") or b.args[0].op == "discr" and b.args[0].a[0] is first and b.args[1] == "None" for b in brs(p))
            around = [b for b in brs(p) if b.args[0].op == "bin" and b.args[0].a[0] == "Eq" and core(first) in map(core, b.args[0].a[1:]) and b.args[1] == 1 and bool(ps_)]
            # or a number of turns counted down from the number of children
            for b in brs(p):
                for t in b.args[0].subs():
                    if t.op == "loop":
                        before, after = turns(p, t)
                        down = all(x.op == "bin" and x.a[0].startswith("Sub") and x.a[1] is t and ev(x.a[2], {}) == 1 for x in after)
                        if before and before[0].op == "call" and before[0].a[0].endswith("HashMap::len") and before[0].a[2] is childs and down and bool(after) == bool(ps_):
                            around.append(b)
            n.add("len") if around else None
            cx.ob("all-children-are-listed", W, none and not ps_ or bool(around), desc(p))
    cx.ob("all-children-are-listed", W, n == {"turn", "len"}, str(n))


def keeps_others(cx, clo, name):
    """the closure is true exactly for elements that are not `name`"""
    n = 0
    for q in crun(cx, clo, ["^$"], branches=anyb, extra=[T("param", "element")]):
        e = T("param", "element")
        v = [b.args[1] for b in brs(q) if b.args[0].op == "bin" and b.args[0].a[0] == "Eq" and b.args[0].has(name)]
        r = q.ret
        if r.op in ("bin", "not"):
            t, pos = r, True
            while t.op == "not":
                t, pos = t.a[0], not pos
            good = t.op == "bin" and t.a[0] in ("Eq", "Ne") and t.has(name) and t.has(e) and (t.a[0] == "Ne") == pos
        else:
            good = bool(v) and ev(r, {}) == 1 - v[0]
        n += 1
        if q.end != "ret" or not good:
            return False
    return n > 0


def ordered_map(cx):
    slf = T("param", "self")
    order, data = T("f", slf, "order"), T("f", slf, "data")
    name, val = T("param", "name"), T("param", "value")
    W = OM + "set"
    n = 0
    for p in cx.run(W, [r"HashMap::\w+$", r"Vec::\w+$", "filter$"], unit=U, branches=anyb, stores=lambda t, v: True):
        if p.end != "ret":
            continue
        n += 1
        ef = effects(p)
        ins = [x for x in ef if x[0] == "HashMap.insert"]
        cx.ob("name-has-the-last-value-set", W, len(ins) == 1 and ins[0][1] is data and ins[0][2] == [name, val], desc(p))
        st = [x for x in ef if x[0] == "store" and x[1] is order]
        pu = [x for x in ef if x[0] == "Vec.push"]
        rt = [x for x in ef if x[0] == "Vec.retain"]
        was = [b for b in brs(p) if b.args[0].op == "call" and b.args[0].a[0].endswith("contains_key") or b.args[0].op == "discr" and b.args[0].a[0].op == "call" and b.args[0].a[0].a[0].endswith("HashMap::insert")]
        present = was[0].args[1] in (1, "Some") if was else None
        base = st[0][2][0] if st else order
        cleaned = False
        if st:
            f = [x for x in base.subs() if x.op == "call" and x.a[0].endswith("Iterator::filter") and x.a[2] is order]
            cleaned = len(f) == 1 and keeps_others(cx, f[0].a[3], name)
            cx.ob("other-names-keep-their-order", W, cleaned, desc(p))
        for x in rt:
            c = keeps_others(cx, x[2][0], name) and x[1] is order
            cleaned = cleaned or c
            cx.ob("other-names-keep-their-order", W, c, desc(p))
        added = [x for x in pu if x[2] == [name] and x[1] in (base, order)]
        other = [x for x in ef if x not in ins + st + rt + added]
        ok = len(added) == 1 and (cleaned or present is False) or not added and not st and not rt and present is True and was[0].args[0].op == "discr"
        cx.ob("name-is-listed-once", W, ok and not other, desc(p))
    cx.floor("ways to set", n, 1)
    W = OM + "remove"
    n = 0
    for p in cx.run(W, [r"HashMap::\w+$", r"Vec::\w+$", "filter$"], unit=U, branches=anyb, stores=lambda t, v: True):
        if p.end != "ret":
            continue
        n += 1
        ef = effects(p)
        rm = [x for x in ef if x[0] == "HashMap.remove" and x[1] is data and x[2] == [name]]
        rt = [x for x in ef if x[0] == "Vec.retain" and x[1] is order and keeps_others(cx, x[2][0], name)]
        st = [x for x in ef if x[0] == "store" and x[1] is order]
        f = [y for x in st for y in x[2][0].subs() if y.op == "call" and y.a[0].endswith("Iterator::filter") and y.a[2] is order and keeps_others(cx, y.a[3], name)]
        absent = [b for b in brs(p) if b.args[0].op == "discr" and b.args[0].a[0].op == "call" and b.args[0].a[0].a[0].endswith("HashMap::remove") and b.args[1] == "None"]
        cx.ob("removed-name-is-gone", W, len(rm) == 1 and (len(rt) + len(f) == 1 or bool(absent)) and len(ef) == 1 + len(rt) + len(st), desc(p))
    cx.floor("ways to remove", n, 1)
    W = OM + "get_iter"
    n = 0
    for p in cx.run(W, [r"HashMap::\w+$", r"Vec::\w+$"], unit=U, branches=anyb):
        if p.end != "ret":
            continue
        src, es = element(p, p.ret)
        cx.ob("every-name-is-given-in-order", W, src is order, desc(p))
        for e in es:
            n += 1
            k, v = part(e, 0), part(e, 1)
            it = T("item", order)
            ok = k is it and (v.op == "vf" and v.a[1] == "Some" or v.op == "call" and "unwrap" in v.a[0] or v.op == "index") and any(x.op == "call" and x.a[0].endswith("HashMap::get") and x.a[2] is data and x.a[3] is it for x in v.subs())
            cx.ob("name-comes-with-its-value", W, bool(ok), show(e))
    cx.floor("names given", n, 1)
    # a map starts empty
    for p in cx.run(OM + "new", ["^$"], unit=U):
        cx.ob("map-starts-empty", OM + "new", p.end == "ret" and empty_node(p.ret), show(p.ret))


def rendered(cx):
    slf = T("param", "self")
    W = AE + "get_response_one_elements"
    nid, wid = T("param", "node_id"), T("param", "with_id")
    kinds = set()
    for p in cx.run(W, [r"HashMap::\w+$", r"get_response_\w+$", r"OrderedMap::\w+$"], unit=U, branches=anyb, opaque=opq(r"get_response_\w+$|OrderedMap::(set|remove)$|childs$")):
        if p.end != "ret":
            cx.ob("rendering-cannot-panic", W, False, desc(p))
            continue
        g = calls(p, r"HashMap::get$")
        ok = len(g) == 1 and self_field(g[0].args[0], "all") and g[0].args[1] is nid
        if not cx.ob("renders-the-node-asked-for", W, ok, desc(p)):
            continue
        if outcome(p, p.trace.index(g[0])) == "None":
            cx.ob("missing-node-is-no-element", W, agg_of(p.ret, "HtmlNode", "Comment"), show(p.ret))
            continue
        nd = T("vf", g[0].res, "Some", "0")
        k = [w for t, w, h in variants_on(p, "::Node") if t is nd and h == "="]
        k = k[0] if k else None
        kinds.add(k)
        pay = T("vf", nd, k, "0")
        if k in ("Text", "Comment"):
            cx.ob("text-is-the-current-one", W, agg_of(p.ret, "HtmlNode", k) and p.ret.a[3] is pay, show(p.ret))
        elif k == "Element":
            e = p.ret.a[3] if agg_of(p.ret, "HtmlNode", "Element") else T("none")
            f = afields(e) if e.op == "agg" else {}
            st = calls(p, r"OrderedMap::(set|remove)$")
            w = [b.args[1] for b in brs(p) if b.args[0] is wid]
            ok = f.get("name") is T("f", pay, "name") and f.get("attr") is not None and copy_of(f["attr"], T("f", pay, "attr")) and (not st or w[:1] == [1] and len(st) == 1 and st[0].args[0] is f["attr"])
            cx.ob("element-has-its-name-and-attributes", W, ok, show(e)[:300])
            c = f.get("children")
            ok = c is not None and (c.op == "call" and c.a[0].endswith("get_response_elements") and c.a[2] is slf and c.a[3] is pay and c.a[4] is wid)
            if not ok and c is not None:
                src, es = element(p, c)
                ok = src is not None and in_order(src, T("f", pay, "children")) and all(one_child(x, src, slf, wid) for x in es)
            cx.ob("element-has-its-children", W, ok, show(e)[:300])
    cx.ob("every-kind-of-node", W, kinds == {"Element", "Text", "Comment"}, str(kinds))
    W = AE + "get_response_elements"
    if cx.crate(U).by_path.get(W):
        n = 0
        for p in cx.run(W, [r"Vec(Deque)?::\w+$", r"get_response_\w+$"], unit=U, branches=anyb, opaque=opq(r"get_response_\w+$|childs$")):
            if p.end != "ret":
                continue
            src, es = element(p, p.ret)
            front = [e for e in calls(p, r"::(push_front|insert)$") if e.args[0] is p.ret]
            cx.ob("children-in-their-order", W, src is not None and in_order(src, T("f", T("param", "element"), "children")) and not front, desc(p))
            for x in es:
                n += 1
                cx.ob("each-child-is-rendered", W, one_child(x, src, slf, wid), show(x))
        cx.floor("children rendered", n, 1)
    W = AE + "get_css"
    n = 0
    for p in cx.run(W, [r"Vec(Deque)?::\w+$"], unit=U, branches=anyb, opaque=opq("OrderedMap::")):
        if p.end != "ret":
            continue
        src, es = element(p, p.ret)
        cx.ob("every-rule-in-order", W, src is T("f", slf, "css"), desc(p))
        for x in es:
            n += 1
            it = T("item", T("f", slf, "css"))
            e = x.a[3] if agg_of(x, "HtmlNode", "Element") else x
            f = afields(e) if agg_of(e, "HtmlElement") else {}
            cs = [y for h, y in contents(p, f["children"])] if "children" in f else []
            ok = f.get("name") is not None and f["name"].a[:1] == ("style",) and len(cs) == 1 and agg_of(cs[0], "HtmlNode", "Text")
            tx = joined(p, cs[0].a[3]) if ok else []
            sel, val = T("f", it, "0"), T("f", it, "1")
            lit = "".join("\1" if y is sel else "\2" if y is val else y if isinstance(y, str) else "\3" for y in tx)
            cx.ob("rule-is-its-selector-and-declarations", W, ok and re.fullmatch("\\s*\1\\s*\\{\\s*\2\\s*\\}\\s*", lit) is not None, show(x)[:300])
    cx.floor("rules rendered", n, 1)
    W = AE + "get_response"
    for p in cx.run(W, [r"get_response_\w+$"], unit=U, opaque=opq(r"get_response_\w+$|get_css$")):
        ok = p.end == "ret" and p.ret.op == "agg" and len(p.ret.a) == 5
        r, c = p.ret.a[3:] if ok else (T("none"), T("none"))
        cx.ob("page-is-the-root-node-and-the-rules", W, ok and r.op == "call" and r.a[0].endswith("get_response_one_elements") and ev(r.a[3], {}) == 1 and r.a[4] is wid and c.op == "call" and c.a[0].endswith("get_css") and c.a[2] is slf, show(p.ret)[:300])


def in_order(src, children):
    return src.op == "call" and src.a[0].endswith("ElementChildren::childs") and src.a[2] is children


def one_child(x, src, slf, wid):
    return x.op == "call" and x.a[0].endswith("get_response_one_elements") and x.a[2] is slf and x.a[3] is T("item", src) and x.a[4] is wid


def joined(p, t):
    """pieces of a text made by formatting, concatenating an array of pieces, or pushing"""
    if t.op == "call" and re.search(r"::(concat|join)$", t.a[0]) and t.a[2].op == "agg":
        sep = flat(t.a[3]) if t.a[0].endswith("join") and len(t.a) > 3 else []
        out = []
        for i, x in enumerate(t.a[2].a[3:]):
            out += (sep if i else []) + joined(p, x)
        return out
    return text(p, t)


# ------------------------------------------------------------------ S06
HE = S + "html::html_element::"
VOID = "area base br col embed hr img input link meta param source track wbr".split()
RAW = ["script", "style"]
IN_TEXT = re.compile(r"html_escape::.*encode_(text|safe|quoted_attribute|double_quoted_attribute|single_quoted_attribute|unquoted_attribute)$")
IN_QUOTES = re.compile(r"html_escape::.*encode_(safe|quoted_attribute|double_quoted_attribute|unquoted_attribute)$")


def sev(t, env):
    """the text a term stands for when the texts in env are these, or None"""
    if t in env:
        return env[t]
    if t.op == "c":
        return t.a[0] if isinstance(t.a[0], (str, int)) else None
    if t.op == "call":
        l = t.a[0].rsplit("::", 1)[-1]
        if l in ("to_lowercase", "to_ascii_lowercase", "to_uppercase", "to_ascii_uppercase", "trim", "as_str", "to_string", "to_owned", "clone", "into", "from", "as_ref", "deref", "as_bytes"):
            x = sev(t.a[2], env) if len(t.a) > 2 else None
            if not isinstance(x, str):
                return None
            return x.lower() if "lower" in l else x.upper() if "upper" in l else x.strip() if l == "trim" else x
        a = [sev(x, env) for x in t.a[2:]]
        if l in ("eq", "ne", "eq_ignore_ascii_case") and len(a) == 2 and all(isinstance(x, str) for x in a):
            r = a[0].lower() == a[1].lower() if "ignore" in l else a[0] == a[1]
            return int(r != (l == "ne"))
        if l == "contains" and len(t.a) > 3 and t.a[2].op == "agg":
            v = [sev(x, env) for x in t.a[2].a[3:]]
            return int(a[1] in v) if a[1] is not None and None not in v else None
        if l in ("starts_with", "ends_with") and len(a) == 2 and all(isinstance(x, str) for x in a):
            return int(getattr(a[0], l.replace("_", ""))(a[1]))
    if t.op == "bin" and t.a[0] in ("Eq", "Ne"):
        a, b = sev(t.a[1], env), sev(t.a[2], env)
        return None if a is None or b is None else int((a == b) == (t.a[0] == "Eq"))
    if t.op == "not":
        x = sev(t.a[0], env)
        return None if x is None else 1 - x
    return None


def possible(p, env):
    """can the path be taken when the texts in env are these?"""
    for e in brs(p):
        v = sev(e.args[0], env)
        if v is None:
            continue
        w = e.args[1]
        if e.name == "=" and isinstance(w, int) and isinstance(v, int) and v != w or e.name != "=" and str(v) in w:
            return False
    return True


def written(p, out):
    """what the path adds to the text or list of texts `out`, in order: texts, terms, and recursive calls"""
    got = []
    for e in p.trace:
        if e.kind != "call" or not e.args or e.args[0] is not out:
            continue
        l = e.name.rsplit("::", 1)[-1]
        if l in ("push", "push_str", "write_str", "write_fmt", "push_back"):
            got += [chr(x) if isinstance(x, int) else x for x in joined(p, e.args[1])]
        elif l in ("extend", "extend_from_slice") and e.args[1].op == "agg":
            for x in e.args[1].a[3:]:
                got += joined(p, x)
        elif l.startswith("html_node_to_string"):
            got.append(("node", e.args))
        else:
            got.append(("?", e.args))
    return got


def cow(t):
    while t.op == "call" and re.search(r"::(into_owned|to_string|deref|as_ref|from|into|to_owned|clone|borrow)$", t.a[0]) and len(t.a) == 3 or agg_of(t, "Cow"):
        t = t.a[2] if t.op == "call" else t.a[3]
    return t


def escaped(t, of, how):
    t = cow(t) if t.__class__ is T else T("none")
    return t.op == "call" and how.search(t.a[0]) is not None and cow(t.a[2]) is of


def blank(x, p):
    """indentation"""
    if isinstance(x, str):
        return not x.strip()
    if x.op == "call" and x.a[0].endswith("::take") and x.a[2].op == "call" and x.a[2].a[0].endswith("iter::repeat") and x.a[2].a[2].op == "c":
        c = x.a[2].a[2].a[0]
        return not (chr(c) if isinstance(c, int) else str(c)).strip()
    return x.op == "call" and (x.a[0].endswith("::repeat") and isinstance(x.a[2].a[0], str) and not x.a[2].a[0].strip() or x.a[0] == "std::string::String::new")


@check("S06", (U,))
def s06(cx):
    W = HE + "html_node_to_string"
    node, out = T("param", "node"), T("param", "result")
    ps = cx.run(W, [r"Vec(Deque)?::(push\w*|extend\w*|pop|insert|truncate|clear)$", r"String::\w+$", r"write_(str|fmt)$", r"html_escape", r"encode_raw_text$", "html_node_to_string$"], unit=U, branches=anyb,
                opaque=opq(r"encode_raw_text$|get_render_child_mode$|attributes_to_string$"))
    el = T("vf", node, "Element", "0")
    name, attr, kids = (T("f", el, n) for n in ("name", "attr", "children"))
    names = VOID + RAW + ["SCRIPT", "Style", "div", "a", "textarea", "title", "styles", "colgroup", "p", "svg", "body"]
    shapes = {n: set() for n in names}
    seen = set()
    for p in ps:
        if not cx.ob("writing-cannot-panic", W, p.end == "ret", desc(p)):
            continue
        k = {w for t, w, h in variants_on(p, "HtmlNode") if t is node and h == "="}
        if not cx.ob("every-kind-of-node", W, len(k) == 1, desc(p)):
            continue
        k = k.pop()
        seen.add(k)
        got = written(p, out)
        while got and got[0].__class__ in (str, T) and blank(got[0], p):
            got = got[1:]
        if k == "Text":
            cx.ob("text-is-escaped", W, len(got) == 1 and escaped(got[0], T("vf", node, "Text", "0"), IN_TEXT), str(got))
            continue
        if k == "Comment":
            ok = not got or len(got) == 3 and got[0] == "<!--" and got[2] == "-->" and escaped(got[1], T("vf", node, "Comment", "0"), IN_TEXT)
            cx.ob("comment-is-escaped", W, ok, str(got))
            continue
        s = ""
        md = [(t, w) for t, w, h in variants_on(p, "ChildMode") if h == "="]
        mode = md[0] if md else None
        doms = [d for d, w in iters(p).items()]
        for x in got:
            if isinstance(x, str):
                s += x
            elif isinstance(x, tuple):
                a = x[1]
                it = [y for y in a if y.op == "item"]
                src = T("vf", mode[0], "Child", "0") if mode else None
                s += "\1" if x[0] == "node" and it and it[0].a[0] is src and finished(p, lambda d: d is src) else "\2"
            elif blank(x, p):
                pass
            elif escaped(x, name, IN_TEXT):
                s += "\3"
            elif x.op == "call" and x.a[0].endswith("attributes_to_string") and copy_of(x.a[2], attr):
                s += "\4"
            elif mode and mode[1] == "Text":
                txt = T("vf", mode[0], "Text", "0")
                y = cow(x)
                raw = y.op == "call" and y.a[0].endswith("encode_raw_text") and cow(y.a[2]) is txt
                nm = y.a[3] if raw and len(y.a) > 3 else None
                s += "\5" if escaped(x, txt, IN_TEXT) else "\6" if raw and nm is not None and sev(nm, {name: "STYLE"}) == "style" else "\2"
            else:
                s += "\2"
        if mode:
            cx.ob("children-are-this-element's", W, mode[0].op == "call" and mode[0].a[0].endswith("get_render_child_mode") and mode[0].a[2] is kids, show(mode[0]))
        if mode and mode[1] == "Child":
            turn = [b for b in brs(p) if b.args[0].op == "discr" and b.args[0].a[0].op == "next" and b.args[1] == "Some"]
            cx.ob("every-child-is-written", W, finished(p, lambda d: d is T("vf", mode[0], "Child", "0")) and s.count("\1") == len(turn), desc(p))
        for n in names:
            if possible(p, {name: n}):
                shapes[n].add((mode[1] if mode else None, re.sub("\1+", "\1", s)))
    open_ = "<\3\4>"
    for n in names:
        got = shapes[n]
        if n in VOID:
            ok = bool(got) and all(m is None and re.fullmatch("<\3\4 ?/?>", s) for m, s in got)
            cx.ob("void-element-has-no-content-and-no-end", f"{W} <{n}>", ok, str(got))
            continue
        body = "\6" if n.lower() in RAW else "\5"
        ok = {m for m, s in got} == {"Child", "Text"} and all(s in (open_ + "</\3>", open_ + "\1</\3>") if m == "Child" else s == open_ + body + "</\3>" for m, s in got)
        what = "raw-text-cannot-close-its-element" if n.lower() in RAW else "element-has-attributes-content-and-end"
        cx.ob(what, f"{W} <{n}>", ok, repr(got))
    cx.ob("every-kind-of-node", W, seen == {"Element", "Text", "Comment"}, str(seen))
    attributes(cx)
    child_mode(cx)
    raw_text(cx)
    document(cx)
    path_to_element(cx)


def attributes(cx):
    W = HE + "attributes_to_string"
    attr = T("param", "attr")
    n = 0
    for p in cx.run(W, [r"Vec(Deque)?::\w+$", r"String::\w+$", r"write_(str|fmt)$", "get_iter$"], unit=U, branches=anyb, opaque=opq("get_iter$")):
        if not cx.ob("writing-cannot-panic", W, p.end == "ret", desc(p)):
            continue
        src = [d for d in iters(p) if d.op == "call" and d.a[0].endswith("OrderedMap::get_iter") and copy_of(d.a[2], attr)]
        mapped = [x for x in p.ret.subs() if x.op == "mapped" and x.a[0].op == "call" and x.a[0].a[0].endswith("get_iter") and x.a[0].a[2] is attr]
        cx.ob("every-attribute-is-written", W, len(src) == 1 and finished(p, lambda d: d is src[0]) and len(iters(p)) == 1 or bool(mapped), desc(p))
        acc = [e for e in p.trace if e.kind == "call" and re.search(r"::(push|push_str|write_fmt|write_str)$", e.name) and p.ret.has(e.args[0])]
        turns_ = [b for b in brs(p) if b.args[0].op == "discr" and b.args[0].a[0].op == "next" and b.args[1] == "Some"]
        got = []
        for e in acc:
            got += [chr(x) if isinstance(x, int) else x for x in joined(p, e.args[1])]
        for m in mapped:
            if not (m.a[1].op == "item" and m.a[1].a[0].op == "empty"):
                got += joined(p, m.a[1])
                turns_ = [1]
        if not turns_:
            cx.ob("nothing-is-written-without-attributes", W, not got, str(got))
            continue
        it = T("item", (src or [mapped[0].a[0]])[0]) if src or mapped else T("none")
        s = "".join(x if isinstance(x, str) else "\1" if escaped(x, T("f", it, "0"), IN_TEXT) else "\2" if escaped(x, T("f", it, "1"), IN_QUOTES) else "\3" for x in got)
        n += 1
        cx.ob("attribute-value-is-quoted-and-escaped", W, re.fullmatch("\\s+\1=\"\2\"", s) is not None, repr(s) + str(got))
    cx.floor("attributes written", n, 1)


ONE = T("c", 1)


def child_mode(cx):
    W = HE + "get_render_child_mode"
    kids = T("param", "element")
    it = T("item", kids)
    txt = T("vf", it, "Text", "0")
    n = set()
    ps = cx.run(W, [r"Vec(Deque)?::\w+$", r"String::\w+$", r"mem::(take|replace)$", r"Option::(take|replace|insert|get_or_insert\w*)$"], unit=U, branches=anyb, carries=True, stores=lambda t, v: True)
    # where text is collected from one child to the next
    accs = {e.args[0] for p in ps for e in p.trace if e.kind == "carry" and e.args[1].has(txt) and (agg_of(e.args[1], "Option", "Some") or e.args[1].op == "agg" and "array" in str(e.args[1].a[0]))
            and not str(e.args[0].a[2]).startswith("*")}
    for p in ps:
        if not cx.ob("grouping-cannot-panic", W, p.end == "ret", desc(p)):
            continue
        cx.ob("every-child-is-looked-at", W, finished(p, lambda d: d is kids), desc(p))
        res = None
        cut = [i for i, b in enumerate(p.trace) if b.kind == "br" and b.args[0].op == "discr" and b.args[0].a[0] is T("next", kids)]
        pushed = [(i, e.args[0], e.args[1]) for i, e in enumerate(p.trace) if e.kind == "call" and re.search(r"::(push|push_back)$", e.name)]
        nodes = [(i, d, x) for i, d, x in pushed if agg_of(x, "HtmlNode") or x is it]
        lists = {d for i, d, x in nodes}
        cx.ob("one-list-of-nodes", W, len(lists) <= 1, desc(p))
        joinedtext = lambda x: agg_of(x, "HtmlNode", "Text")
        for j, i in enumerate(cut[:-1]):
            end = cut[j + 1]
            v = [b.args[1] if b.name == "=" else None for b in p.trace[i:end] if b.kind == "br" and b.args[0].op == "discr" and b.args[0].a[0] is it]
            kind = v[0] if v else None
            here = [(k, d, x) for k, d, x in nodes if i < k < end]
            gives = [e for e in p.trace[i:end] if (e.kind == "carry" and e.args[1].has(txt) and e.args[1].op != "discr" or e.kind == "call" and re.search(r"::(push|push_str|push_back)$", e.name) and e.args[1] is txt
                                                   or e.kind == "store" and e.args[1].has(txt))]
            if kind == "Text":
                n.add("Text")
                direct = [x for k, d, x in here if joinedtext(x) and x.a[3] is txt]
                cx.ob("text-is-kept-in-order", W, bool(gives) and not here or len(direct) == 1 == len(here), desc(p))
            elif kind == "Comment":
                n.add("Comment")
                kept = [x for k, d, x in here if x is it or agg_of(x, "HtmlNode", "Comment")]
                lost = [e for e in p.trace[i:end] if e.kind == "carry" and e.args[0] in accs and e.args[1] is not e.args[0]]
                cx.ob("comment-changes-nothing-else", W, not gives and not lost and len(here) == len(kept) <= 1, desc(p))
            else:
                n.add("Element")
                own = [k for k, d, x in here if x is it or agg_of(x, "HtmlNode", "Element") and x.a[3] is T("vf", it, "Element", "0")]
                flush = [(k, x) for k, d, x in here if joinedtext(x)]
                # text met before it goes first, and is not kept for later
                had = [b.args[1] for b in p.trace[i:end] if b.kind == "br" and b.args[0].op == "discr" and b.args[0].a[0].op == "loop" and b.args[1] in ("Some", "None")] or \
                      ["None" if b.args[1] == 1 else "Some" for b in p.trace[i:end] if b.kind == "br" and b.args[0].op == "call" and b.args[0].a[0].endswith("is_empty")]
                state = [b.args[0].a[0] for b in p.trace[i:end] if b.kind == "br" and b.args[0].op == "discr" and b.args[0].a[0].op == "loop" and b.args[1] == "Some"]
                ok = len(own) == 1 and len(here) == 1 + len(flush) and all(k < own[0] for k, x in flush) and len(flush) <= 1
                if state:
                    later = [e.args[1] for e in p.trace[i:end] if e.kind == "carry" and e.args[0] is state[0]]
                    left = later[-1] if later else None
                    ok = ok and len(flush) == 1 and flush[0][1].has(state[0]) and left is not None and (agg_of(left, "Option", "None") or left.op == "empty" or left.op == "call" and left.a[0].endswith("::new"))
                elif had and had[0] == "Some":
                    ok = ok and len(flush) == 1
                cx.ob("element-follows-the-text-before-it", W, ok, desc(p))
        # at the end
        tail = [(k, d, x) for k, d, x in nodes if k > cut[-1]] if cut else []
        flush = [x for k, d, x in tail if joinedtext(x)]
        open_ = [b.args[0].a[0] for b in p.trace[cut[-1]:] if b.kind == "br" and b.args[0].op == "discr" and b.args[0].a[0].op == "loop" and b.args[1] == "Some"] if cut else []
        if open_:
            n.add("tail")
            cx.ob("text-at-the-end-is-kept", W, len(flush) == 1 and flush[0].has(open_[0]), desc(p))
        for x in accs & {e.args[0] for e in p.trace if e.kind in ("carry", "init")}:
            since = max([i for i, e in enumerate(p.trace) if e.kind in ("carry", "init") and e.args[0] is x])
            st = [b.args[1] for b in p.trace[since:] if b.kind == "br" and b.args[0].op == "discr" and b.args[0].a[0] is x]
            none = st[-1] == "None" if st else agg_of(p.trace[since].args[1], "Option", "None")
            cx.ob("text-at-the-end-is-kept", W, none or bool(flush), desc(p))
        pops = [e for e in p.trace if e.kind == "call" and e.name.endswith("::pop")]
        if agg_of(p.ret, "ChildMode", "Text"):
            n.add("=Text")
            only = any(b.args[1] == 1 and b.args[0].op == "call" and b.args[0].a[0].endswith("is_empty") for b in brs(p)) or \
                any(b.args[1] == 1 and b.args[0].op == "bin" and b.args[0].a[0] == "Eq" and any(y.op == "len" or y.op == "call" and y.a[0].endswith("::len") for y in b.args[0].subs()) and any(y is ONE for y in b.args[0].a) for b in brs(p))
            src = p.ret.a[3]
            src = src.a[0] if src.op == "old" else src
            ok = src.op == "vf" and src.a[1] == "Text" and (pops and src.a[0] is T("vf", pops[-1].res, "Some", "0") and len(pops) == 1 or any(src.has(d) for d in lists | {x for x in src.subs() if x.op == "call"}))
            cx.ob("only-text-is-given-as-text", W, bool(ok and only), show(p.ret))
        elif agg_of(p.ret, "ChildMode", "Child"):
            n.add("=Child")
            r = p.ret.a[3]
            if pops:
                last = T("vf", pops[-1].res, "Some", "0")
                back = [k for k, d, x in pushed if d is r and x is last and k > p.trace.index(pops[-1])]
                empty = any(b.args[0].op == "discr" and b.args[0].a[0] is pops[-1].res and b.args[1] == "None" for b in brs(p))
                cx.ob("the-nodes-are-given", W, len(pops) == 1 and (empty and not back or len(back) == 1), show(p.ret))
            else:
                cx.ob("the-nodes-are-given", W, not lists or r in lists, show(p.ret))
        else:
            cx.ob("the-nodes-are-given", W, False, show(p.ret))
    cx.ob("every-kind-of-child", W, {"Text", "Comment", "Element", "=Text", "=Child"} <= n, str(n))


def raw_text(cx):
    W = HE + "encode_raw_text"
    text_, name = T("param", "text"), T("param", "name")
    n = set()
    for p in cx.run(W, ["find$", r"String::\w+$", "index$", "contains$"], unit=U, branches=anyb, carries=True):
        if not cx.ob("writing-cannot-panic", W, p.end == "ret", desc(p)):
            continue
        out = [e for e in p.trace if e.kind == "call" and e.name.endswith("push_str") and e.args[0] is p.ret]
        cx.ob("nothing-else-is-written", W, not [e for e in p.trace if e.kind == "call" and re.search(r"String::(push|insert\w*|truncate|clear|remove|pop|extend)$", e.name)], desc(p))
        rest, ok = None, bool(out)
        fnd = [(e, outcome(p, i)) for i, e in enumerate(p.trace) if e.kind == "call" and e.name.endswith("str::find")]
        for e, w in fnd:
            h, c_ = e.args[:2]
            same = h.op == "call" and h.a[0].endswith("to_ascii_lowercase")
            hay = h.a[2] if same else None
            needle = "".join(x if isinstance(x, str) else "\1" if x is name else "\2" for x in joined(p, c_))
            cx.ob("end-tag-is-looked-for-in-any-case", W, same and needle == "</\1", show(e.res))
            rest = hay if rest is None else rest
            ok = ok and hay is rest
            at = T("vf", e.res, "Some", "0")
            if w == "Some":
                n.add("found")
                upto = [x for x in out if any(y.op == "agg" and str(y.a[0]).endswith("RangeTo") and y.a[3] is at for y in x.args[1].subs()) and x.args[1].has(rest)]
                car = [x.args[1] for x in p.trace if x.kind == "carry" and x.args[0] is rest]
                frm = [y for x in car for y in x.subs() if y.op == "agg" and str(y.a[0]).endswith("RangeFrom")]
                k = ev(frm[0].a[3], {at: 0}) if len(frm) == 1 else None
                lit = [x for x in out if x.args[1].op == "c"]
                # the two characters of "</" are replaced by something that cannot begin an end tag
                good = len(upto) == 1 and k == 2 and car[0].has(rest) and len(lit) == 1 and "</" not in lit[0].args[1].a[0] and not lit[0].args[1].a[0].endswith("<")
                good = good and out.index(upto[0]) < out.index(lit[0]) and lit[0].args[1].a[0].replace("\\", "") == "</"
                cx.ob("end-tag-is-broken-up", W, good, desc(p))
        end = [e for e, w in fnd if w == "None"]
        n.add("end")
        before, after = turns(p, rest) if rest is not None and rest.op == "loop" else ([rest], [])
        cx.ob("all-of-the-text-is-written", W, ok and bool(end) and out[-1].args[1] is rest and [cow(x) for x in before if x is not None] == [text_], desc(p))
    cx.ob("all-of-the-text-is-written", W, n == {"found", "end"}, str(n))


def document(cx):
    W = HE + "HtmlDocument::convert_to_string"
    n = 0
    for p in cx.run(W, ["html_node_to_string$", r"::push\w*$"], unit=U, branches=anyb, opaque=opq("html_node_to_string$")):
        ns = calls(p, "html_node_to_string$")
        acc = ns[0].args[0] if len(ns) == 1 else T("none")
        ini = [x for h, x in contents(p, acc)]
        ok = p.end == "ret" and len(ns) == 1 and T("f", T("param", "self"), "root") in ns[0].args and len(ini) == 1 and plain(ini[0]).op == "c" and str(plain(ini[0]).a[0]).strip().lower() == "<!doctype html>"
        ok = ok and p.ret.op == "call" and p.ret.a[0].rsplit("::", 1)[-1] in ("concat", "join") and p.ret.a[2] is acc
        ok = ok and (p.ret.a[0].endswith("concat") or p.ret.a[3].op == "c" and not str(p.ret.a[3].a[0]).strip())
        n += 1
        cx.ob("document-is-its-type-and-the-root-element", W, bool(ok), desc(p))
    cx.floor("ways to write a document", n, 1)


def path_to_element(cx):
    W = HE + "HtmlElement::modify"
    slf, path, cb = T("param", "self"), T("param", "path"), T("param", "callback")
    kids = T("f", slf, "children")
    it = T("item", kids)
    seen = set()
    f = [i for i in cx.crate(U).insts.values() if i["p"] == W]
    cx.floor("uses of modify", len(f), 1)
    for i in f:
        for p in cx.run(i, [r"FnOnce", r"::modify$", "call_once"], unit=U, branches=anyb, carries=True, opaque=opq(r"^(?!.*closure).*::modify$")):
            if not cx.ob("modifying-cannot-panic", W, p.end == "ret", desc(p)):
                continue
            end = [b.args[1] for b in brs(p) if b.args[0].op == "call" and b.args[0].a[0].endswith("is_empty") and b.args[0].a[2] is path]
            sf = [b for b in brs(p) if b.args[0].op == "discr" and b.args[0].a[0].op == "call" and b.args[0].a[0].a[0].endswith("split_first") and b.args[0].a[0].a[2] is path]
            here = end[:1] == [1] or bool(sf) and sf[0].args[1] == "None" and not end
            if here:
                seen.add("here")
                cx.ob("element-found-is-changed-once", W, ev(p.ret, {}) == 1 and kids not in iters(p), desc(p))
                continue
            if sf and sf[0].args[1] == "None":
                continue
            head = T("vf", sf[0].args[0].a[0], "Some", "0") if sf else None
            if not cx.ob("path-is-followed-step-by-step", W, head is not None, desc(p)):
                continue
            tag, ix, more = T("f", T("f", head, "0"), "0"), T("f", T("f", head, "0"), "1"), T("f", head, "1")
            last = [b for b in brs(p)][-8:]
            cut = [k for k, b in enumerate(p.trace) if b.kind == "br" and b.args[0].op == "discr" and b.args[0].a[0] is T("next", kids)]
            cnt = [x.args[0] for x in p.trace if x.kind == "init" and ev(x.args[1], {}) == 0 and any(b.args[0].has(x.args[0]) and b.args[0].has(ix) for q in [p] for b in brs(q))]
            for a, b in zip(cut, cut[1:] + [len(p.trace)]):
                if p.trace[a].args[1] != "Some":
                    continue
                ev_ = p.trace[a:b]
                elem = [x.args[1] for x in ev_ if x.kind == "br" and x.args[0].op == "discr" and x.args[0].a[0] is it]
                same = [x.args[1] for x in ev_ if x.kind == "br" and x.args[0].has(tag) and any(y.op == "f" and y.a[1] == "name" for y in x.args[0].subs())]
                nth = [x for x in ev_ if x.kind == "br" and x.args[0].has(ix)]
                car = [x for x in ev_ if x.kind == "carry" and x.args[1].op == "bin" and x.args[1].a[0] == "Add" and ev(x.args[1].a[2], {}) == 1 and x.args[1].a[1] is x.args[0]]
                down = p.ret.op == "call" and p.ret.a[0].endswith("modify") and b == len(p.trace)
                match = same[:1] == [1]
                if match:
                    seen.add("match")
                    k = nth[0].args[0] if nth else None
                    var = [x for x in (k.a[1:] if k is not None and k.op == "bin" and k.a[0] == "Eq" else []) if x is not ix]
                    ini, aft = turns(p, var[0]) if var and var[0].op == "loop" else ([], [])
                    good = len(var) == 1 and [ev(x, {}) for x in ini] == [0]
                    if nth and nth[0].args[1] == 1:
                        good = good and down and p.ret.a[2] is T("vf", it, "Element", "0") and p.ret.a[3] is more and p.ret.a[4] is cb
                        seen.add("found")
                    else:
                        good = good and not down and [x.args[0] for x in car] == var
                    cx.ob("the-nth-child-of-that-name-is-taken", W, bool(good), desc(p))
                else:
                    cx.ob("other-children-do-not-count", W, not down and not [x for x in car if x.args[0] in cnt], desc(p))
            if finished(p, lambda d: d is kids):
                seen.add("absent")
                cx.ob("missing-element-is-reported", W, ev(p.ret, {}) == 0, show(p.ret))
    cx.ob("all-cases", W, seen >= {"here", "match", "found", "absent"}, str(seen))


# ------------------------------------------------------------------ S07
PW = [r"OrderedMap::\w+$", r"HtmlElement::modify$", "convert_to_string$", r"Vec(Deque)?::(push|insert|extend|append|pop|truncate|clear|remove|retain|swap|rotate|split)\w*$", "get_response$", "::rev$", r"String::\w+$", r"str::(replace|trim)\w*$"]
PO = opq(r"HtmlElement::modify$|get_response$|convert_to_string$|OrderedMap::set$")


def answer(t):
    """(status, type, body) of an answer of the server"""
    if not agg_of(t, "ResponseState"):
        return None, None, None
    f = afields(t)
    return str(f["status"].a[0]).rsplit("::", 1)[-1] if f["status"].op == "cpath" else None, f["content_type"].a[1] if f["content_type"].op == "agg" else None, f["body"]


@check("S07", (U,))
def s07(cx):
    W = HR + "build_response"
    slf = T("param", "self")
    env = T("f", slf, "env")
    mount = T("f", slf, "mount_path")
    seen = set()
    for p in cx.run(W, PW, unit=U, branches=anyb, opaque=PO):
        if not cx.ob("assembling-cannot-panic", W, p.end == "ret", desc(p)):
            continue
        g = calls(p, r"AllElements::get_response$")
        st, ty, body = answer(p.ret)
        if not cx.ob("page-is-made-from-the-current-tree", W, len(g) == 1 and self_field(g[0].args[0], "all_elements") and ev(g[0].args[1], {}) == 0 and st is not None, desc(p)):
            continue
        root, css = T("f", g[0].res, "0"), T("f", g[0].res, "1")
        el = T("vf", root, "Element", "0")
        m = [(i, e) for i, e in enumerate(p.trace) if e.kind == "call" and e.name.endswith("HtmlElement::modify") and e.args[0] is el]
        tobody = [(i, e) for i, e in m if tuple_path(e.args[1]) == [("body", 0)]]
        done = [b.args[1] for b in brs(p) for i, e in tobody if b.args[0] is e.res]
        kind = [w for t, w, h in variants_on(p, "HtmlNode") if t is root and h == "="]
        name = [b.args[1] == (1 if b.args[0].a[0] == "Eq" else 0) for b in brs(p) if b.args[0].op == "bin" and b.args[0].a[0] in ("Eq", "Ne") and b.args[0].has(T("f", el, "name")) and any(x.op == "c" and x.a[0] == "html" for x in b.args[0].subs())]
        good = kind[:1] == ["Element"] and name == [True] and done == [1]
        if not good:
            bad = kind[:1] != ["Element"] or name == [False] or done == [0]
            seen.add("error")
            cx.ob("a-page-without-its-elements-is-an-error", W, bad and st == "INTERNAL_SERVER_ERROR", desc(p))
            continue
        seen.add("page")
        d = [t for t in body.subs() if t.op == "call" and t.a[0].endswith("convert_to_string")]
        ok = len(d) == 1 and plain(body) is d[0] and agg_of(d[0].a[2], "HtmlDocument") and afields(d[0].a[2]).get("root") is root
        cx.ob("page-is-the-whole-document", W, bool(ok) and st == "OK" and ty == "Html", show(p.ret)[:300])
        # the environment
        sets = [e for e in calls(p, r"OrderedMap::set$") if e.args[0] is T("f", el, "attr")]
        cx.ob("every-environment-entry-is-on-the-page", W, finished(p, lambda x: x is env), desc(p))
        turned = sum(1 for b in brs(p) if b.args[0].op == "discr" and b.args[0].a[0] is T("next", env) and b.args[1] == "Some")
        it = T("item", env)
        for e in sets:
            seen.add("env")
            nm = joined(p, plain(e.args[1]))
            cx.ob("environment-entry-has-its-name-and-value", W, nm == ["data-env-", T("f", it, "0")] and plain(e.args[2]) is T("f", it, "1"), desc(p))
        cx.ob("every-environment-entry-is-on-the-page", W, len(sets) == turned, desc(p))
        # the rest of the tree is left alone
        for i, e in m:
            if (i, e) in tobody:
                continue
            for q in crun(cx, e.args[2], PW, extra=[T("param", "element")], branches=anyb, opaque=PO):
                cx.ob("only-the-body-is-added-to", W, q.end == "ret" and not [x for x in q.trace if x.kind == "call"], desc(q))
        cx.ob("body-is-changed-once", W, len(tobody) == 1, desc(p))
        clo = tobody[0][1].args[2]
        if not cx.ob("body-is-changed-once", W, clo.op == "clo", show(clo)[:100]):
            continue
        bd = T("param", "body")
        kids = T("f", bd, "children")
        n = 0
        for q in crun(cx, clo, PW, extra=[bd], branches=anyb, opaque=PO):
            if not cx.ob("assembling-cannot-panic", W, q.end == "ret", desc(q)):
                continue
            n += 1
            both = [e for e in p.trace + q.trace if e.kind == "call"]
            mine = [(i, e) for i, e in enumerate(q.trace) if e.kind == "call" and e.args and e.args[0] is kids]
            rules, scripts, other = [], [], []
            for i, e in mine:
                x = e.args[-1] if len(e.args) > 1 else T("none")
                l = e.name.rsplit("::", 1)[-1]
                if x in (T("item", css), T("item", T("rev", css))) or x.op == "vf" and x.a[0].op == "call" and re.search(r"::pop_(back|front)$", x.a[0].a[0]) and core(x.a[0].a[2]) is core(css):
                    rules.append((i, l, x))
                elif agg_of(x, "HtmlNode", "Element") and agg_of(x.a[3], "HtmlElement"):
                    scripts.append((i, l, x.a[3]))
                else:
                    other.append(e)
            cx.ob("nothing-else-is-added", W, not other, desc(q))
            # rules: all of them, in their order, at the beginning
            for i, l, x in rules:
                seen.add("rule")
                b_ = x.a[0].op == "rev" if x.op == "item" else x.a[0].a[0].endswith("pop_back")
                cx.ob("rules-come-first-in-their-order", W, l == "push_front" and bool(b_), desc(q))
            popped = [w for i, e in enumerate(q.trace) if e.kind == "call" and re.search(r"::pop_(back|front)$", e.name) for w in [outcome(q, i)]]
            cx.ob("every-rule-is-on-the-page", W, finished(q, lambda x: core(x.a[0] if x.op == "rev" else x) is core(css)) or popped[-1:] == ["None"], desc(q))
            # the script that starts the application
            if cx.ob("application-is-started-once", W, len(scripts) == 1, desc(q)):
                i, l, s = scripts[0]
                f = afields(s)
                at = {}
                for e in both:
                    if e.name.endswith("OrderedMap::set") and e.args[0] is f["attr"]:
                        k = plain(e.args[1])
                        at[k.a[0] if k.op == "c" else show(k)] = plain(e.args[2])
                ok = plain(f["name"]).op == "c" and plain(f["name"]).a[0] == "script" and set(at) == {"type", "data-vertigo-run-wasm", "src"}
                ok = ok and at["type"].op == "c" and at["type"].a[0] == "module" and at["data-vertigo-run-wasm"] is T("f", mount, "wasm_path") and at["src"] is T("f", mount, "run_js") and empty_node(f["children"])
                cx.ob("script-names-the-application", W, ok, ", ".join(f"{k}={show(v)}" for k, v in at.items()))
                cx.ob("script-is-last-in-the-body", W, l == "push_back", l)
        cx.floor("ways to fill the body", n, 1)
    cx.ob("all-cases", W, seen >= {"error", "page", "env", "rule"}, str(seen))
    # changing a node by path changes the element it is
    W = HE + "HtmlNode::modify"
    n = set()
    for i in [i for i in cx.crate(U).insts.values() if i["p"] == W]:
        for p in cx.run(i, [r"HtmlElement::modify$"], unit=U, branches=anyb, opaque=opq(r"HtmlElement::modify$")):
            m = calls(p, "HtmlElement::modify$")
            if m:
                n.add("Element")
                cx.ob("element-is-changed", W, p.end == "ret" and p.ret is m[0].res and m[0].args == (T("vf", slf, "Element", "0"), T("param", "path"), T("param", "callback")), desc(p))
            else:
                n.add("other")
                cx.ob("other-nodes-have-no-elements", W, p.end == "ret" and ev(p.ret, {}) == 0 and not any(w == "Element" and h == "=" for t, w, h in variants_on(p, "HtmlNode")), desc(p))
    cx.ob("all-cases", W, n == {"Element", "other"} or not [i for i in cx.crate(U).insts.values() if i["p"] == W], str(n))


def tuple_path(t):
    """the path of an element as pairs of constants"""
    if t.op != "agg" or t.a[0] != "array":
        return None
    out = []
    for x in t.a[3:]:
        a, b = (part(x, 0), part(x, 1)) if x.op == "agg" else (T("none"), T("none"))
        if a.op != "c" or b.op != "c":
            return None
        out.append((a.a[0], b.a[0]))
    return out


# ------------------------------------------------------------------ S08
RUN = S + "serve_run::"
SRW = [r"Router::\w+$", r"MethodRouter::\w+$", r"install_proxy$", r"routing::\w+$", r"ServeDir::\w+$", r"map_response\w*$", r"from_fn\w*$", r"MountPathConfig::new$", r"ServerState::\w+$", r"Server::\w+$", r"hyper.*Builder::serve$",
      r"http::response::Builder::\w+$", r"RwLock::\w+$", r"http::Response::\w+$", r"HeaderMap::\w+$", "into_response$", r"reqwest::\w+$", r"reqwest.*(RequestBuilder|Client|Response)::\w+$", "add_watch_script$", "(get|post)_response$"]
SO = opq(r"serve_run::(install_proxy|get_response|post_response)$|ServerState::(new|request)$|MountPathConfig::new$|ResponseState::add_watch_script$")


def hname(t):
    """name of a header"""
    t = plain(t)
    if t.op == "c":
        return str(t.a[0]).lower()
    if t.op == "cpath":
        return str(t.a[0]).rsplit("::", 1)[-1].lower().replace("_", "-")
    if t.op == "call" and t.a[0].endswith("from_static"):
        return hname(t.a[2])
    return None


def hvalue(t):
    t = plain(t)
    if t.op == "call" and re.search(r"(from_static|from_str)$", t.a[0]):
        t = plain(t.a[2])
    return t


def sliced(p, t):
    """pieces of a text; slices of constant arrays are resolved"""
    if t.op == "call" and re.search(r"::(concat|join)$", t.a[0]):
        src = t.a[2]
        lo, hi = 0, None
        if src.op == "call" and src.a[0].endswith("index") and src.a[2].op == "agg" and src.a[3].op == "agg":
            r = afields(src.a[3])
            k = {n: (v.a[0] if v.op == "c" else None) for n, v in r.items()}
            if None in k.values():
                return [t]
            lo, hi = k.get("start", 0), k.get("end")
            if src.a[3].a[0].endswith("RangeInclusive") and hi is not None:
                hi += 1
            src = src.a[2]
        if src.op == "agg" and src.a[0] == "array":
            sep = flat(t.a[3]) if t.a[0].endswith("join") and len(t.a) > 3 else []
            out = []
            for i, x in enumerate(src.a[3:][lo:hi]):
                out += (sep if i else []) + sliced(p, x)
            return out
        return [t]
    if t.op == "call" and re.search(r"str::replacen?$", t.a[0]):
        return [T("before", t)] + sliced(p, t.a[4]) + [T("after", t)]
    out = []
    for x in text(p, t):
        out += sliced(p, x) if x.__class__ is T and x is not t and x.op in ("call", "fmt") else [x]
    return out


@check("S08", (U,))
def s08(cx):
    # the kinds of answers
    for n, st, ty in (("html", "OK", "Html"), ("plain", "OK", "Plain"), ("internal_error", "INTERNAL_SERVER_ERROR", "Plain")):
        W = RS + n
        fs = [i for i in cx.crate(U).insts.values() if i["p"] == W]
        cx.floor(f"uses of {n}", len(fs), 1)
        for i in fs:
            for p in cx.run(i, [r"^$"], unit=U, branches=anyb):
                a = answer(p.ret) if p.end == "ret" else (None, None, None)
                cx.ob("kind-of-answer-has-its-status-and-type", W, a[:2] == (st, ty) and plain(a[2]) is T("param", "body"), desc(p))
    W = "ContentType::fmt"
    seen = {}
    for i in [i for i in cx.crate(U).insts.values() if re.search(r"ContentType as std::fmt::Display>::fmt$", i["p"])]:
        for p in cx.run(i, [r"write_str$"], unit=U, branches=anyb):
            w = calls(p, "write_str$")
            v = [w_ for t, w_, h in variants_on(p, "ContentType") if h == "="]
            k = plain(w[0].args[1]) if len(w) == 1 else T("none")
            for x in v[:1]:
                seen[x] = str(k.a[0]).lower().replace(" ", "") if k.op == "c" else None
    cx.ob("types-are-written-as-their-media-type", W, seen.get("Html") == "text/html;charset=utf-8" and str(seen.get("Plain")).split(";")[0] == "text/plain", str(seen))
    # an application's own answer
    by = message_paths(cx)
    W = HR + "process_message"
    body = T("vf", T("param", "message"), "PlainResponse", "0")
    n = 0
    for p in by.get("PlainResponse", []):
        n += 1
        x = p.ret.a[3] if p.end == "ret" and agg_of(p.ret, "Option", "Some") else T("none")
        a = ("OK", "Plain", x.a[2]) if x.op == "call" and x.a[0].endswith("ResponseState::plain") else answer(x)
        cx.ob("plain-answer-is-what-the-application-gave", W, a[:2] == ("OK", "Plain") and plain(a[2]) is body, desc(p))
    cx.floor("plain answers", n, 1)
    # what is sent for an answer
    W = RUN + "handler"
    seen = set()
    ps = arun(cx, W, SRW, branches=anyb, opaque=SO)
    cx.floor("ways through the page handler", len(ps), 2)
    for p in ps:
        if not cx.ob("handler-cannot-panic", W, p.end == "ret", desc(p)):
            continue
        rq = calls(p, r"ServerState::request$")
        if not cx.ob("asked-once", W, len(rq) == 1, desc(p)):
            continue
        x = T("await", rq[0].res)
        hs, st, bd, t = [], None, None, p.ret
        if t.op == "vf":
            t = t.a[0]
        while t.op == "call" and re.search(r"::Builder::(\w+)$", t.a[0]):
            l = t.a[0].rsplit("::", 1)[-1]
            if l == "header":
                hs.append((hname(t.a[3]), t.a[4]))
            elif l == "status":
                st = t.a[3]
            elif l == "body":
                bd = t.a[3]
            t = t.a[2] if len(t.a) > 2 else T("none")
        whole = t.op == "call" and re.search(r"Response::builder$|Builder::new$", t.a[0])
        if not cx.ob("answer-is-built-in-one-place", W, bool(whole) or st is not None, show(p.ret)[:200]):
            continue
        cx.ob("answer-has-its-status", W, st is T("f", x, "status"), show(st) if st is not None else "none")
        cx.ob("answer-has-its-body", W, bd is T("f", x, "body"), show(bd)[:120] if bd is not None else "none")
        names = [h for h, v in hs]
        cx.ob("answer-has-its-type", W, names.count("content-type") == 1 and dict(hs)["content-type"].has(T("f", x, "content_type")), str(names))
        cc = hvalue(dict(hs)["cache-control"]) if names.count("cache-control") == 1 else T("none")
        d = [s.strip() for s in str(cc.a[0]).split(",")] if cc.op == "c" else []
        cx.ob("page-is-never-cached", W, "no-store" in d and "public" not in d, str(d))
        ws = calls(p, "add_watch_script$")
        st_ = rq[0].args[0]
        pw = T("f", st_, "port_watch")
        on = [w for t, w, h in variants_on(p, "Option") if t is pw and h == "="]
        seen.add(on[0] if on else None)
        cx.ob("watch-script-only-when-watching", W, len(on) == 1 and (len(ws) == 1 and ws[0].args[0] is x and ws[0].args[1] is T("vf", pw, "Some", "0") if on == ["Some"] else not ws), desc(p))
    cx.ob("all-cases", W, seen == {"Some", "None"}, str(seen))
    # the watch script
    W = RS + "add_watch_script"
    slf = T("param", "self")
    sb, sct = T("f", slf, "body"), T("f", slf, "content_type")
    n = 0
    for p in cx.run(W, [r"str::\w+$"], unit=U, branches=anyb, stores=lambda t, v: True):
        if not cx.ob("adding-the-script-cannot-panic", W, p.end == "ret", desc(p)):
            continue
        w = [e for e in p.trace if e.kind == "store"]
        succ = [b.args[1] for b in brs(p) if b.args[0].op == "call" and b.args[0].a[0].endswith("is_success") and b.args[0].a[2] is T("f", slf, "status")]
        html = is_html(p, sct)
        good = succ[:1] == [1] and html is True
        cx.ob("only-successful-pages-get-the-script", W, good if w else (succ[:1] == [0] or html is False), desc(p))
        for e in w:
            n += 1
            ok = e.args[0] is sb
            cx.ob("only-the-body-changes", W, ok, show(e.args[0]))
            ps_ = sliced(p, e.args[1])
            txt = "".join(x if isinstance(x, str) else "\0" for x in ps_)
            rest = [x for x in ps_ if not isinstance(x, str)]
            if ps_ and not isinstance(ps_[0], str) and ps_[0].op == "before":
                r = ps_[0].a[0]
                pat = r.a[3].a[0] if r.a[3].op == "c" else None
                kept = r.a[2] is sb and isinstance(pat, str) and txt.count(pat) == 1 and txt.rstrip("\0").rstrip().endswith(pat) and ps_[-1].op == "after" and ps_[-1].a[0] is r
            else:
                kept = bool(ps_) and ps_[0] is sb
            cx.ob("page-is-kept", W, kept, txt[:40].replace("\0", "{}"))
            a, b, c = txt.find("<script>"), txt.find("start_watch('http://127.0.0.1:\0/events')"), txt.rfind("</script>")
            ok = 0 <= a < b < c and txt.count("</script>") == 1 and "function start_watch(" in txt[a:b] and T("param", "port_watch") in rest
            cx.ob("script-watches-the-given-port", W, ok, txt[-200:].replace("\0", "{}"))
    cx.floor("ways to add the script", n, 1)
    # caching of files
    W = RUN + "set_cache_header"
    for p in arun(cx, W, SRW, branches=anyb, stores=lambda t, v: True):
        c = [e for e in p.trace if e.kind == "call" and e.name.endswith("HeaderMap::insert")]
        ok = p.end == "ret" and p.ret is T("param", "response") and len(c) == 1 and hname(c[0].args[1]) == "cache-control" and plain(c[0].args[0]) in c[0].args[0].subs() and c[0].args[0].has(p.ret)
        d = hvalue(c[0].args[2]) if c else T("none")
        d = [s.strip() for s in str(d.a[0]).split(",")] if d.op == "c" else []
        cx.ob("files-may-be-cached", W, ok and "public" in d and "no-store" not in d, desc(p))
    W = RUN + "run"
    n = 0
    for p in arun(cx, W, SRW, branches=anyb, opaque=SO, carries=True):
        fb = calls(p, r"Router::fallback(_service)?$")
        ls = [e for e in calls(p, r"Router::(route_)?layer$")]
        if not fb:
            continue
        n += 1
        for e in ls:
            inner = [x for x in e.args[0].subs() if x.op == "call" and re.search(r"Router::\w+$", x.a[0])]
            bad = [x for x in e.args[0].subs() if x.op == "loop"] + [x for x in inner if not re.search(r"Router::(new|nest_service|nest|merge)$", x.a[0])]
            cx.ob("only-files-are-cacheable", W, not bad, show(e.args[0])[:200])
        dirs = [e for e in calls(p, r"Router::nest_service$") if e.args[2].op == "call" and "ServeDir::" in e.args[2].a[0]]
        cov = [e for e in ls if dirs and dirs[0].res in e.args[0].subs() and any(x.op == "fn" and str(x.a[0]).endswith("set_cache_header") for x in e.args[1].subs())]
        cx.ob("files-are-cacheable", W, len(dirs) == 1 and len(cov) == 1, desc(p))
    cx.floor("ways to set up the server", n, 1)


def is_html(p, ct):
    """what a path established about a content type being Html (None: nothing)"""
    for b in brs(p):
        t, v = b.args[0], b.args[1]
        if t.op == "discr" and t.a[0] is ct and b.name == "=":
            return v == "Html"
        if t.op == "bin" and t.a[0] in ("Eq", "Ne") and any(x.op == "discr" and x.a[0] is ct for x in (t.a[1], t.a[2])):
            k = [x for x in (t.a[1], t.a[2]) if x.op == "c"]
            if k:
                same = (t.a[0] == "Eq") == bool(v)
                return same if k[0].a[0] == 1 else (False if same else True)
    return None


# ------------------------------------------------------------------ S09
HOP = {"connection", "keep-alive", "proxy-authenticate", "proxy-authorization", "te", "trailer", "transfer-encoding", "upgrade"}


@check("S09", (U,))
def s09(cx):
    # setting up
    W = RUN + "run"
    opts = T("param", "opts")
    inner = T("f", opts, "inner")
    proxy = T("f", inner, "proxy")
    seen = set()
    for p in arun(cx, W, SRW + ["parse$"], branches=anyb, opaque=SO, carries=True, stores=lambda t, v: True):
        nm = ncalls(p, r"MountPathConfig::new$")
        ns = ncalls(p, r"ServerState::new$")
        bind = idx(p, r"Server::(try_)?bind$")
        for i, e in nm + ns:
            if outcome(p, i) == "Err":
                seen.add("refused")
                cx.ob("what-cannot-be-served-is-refused", W, p.end == "ret" and agg_of(p.ret, "Result", "Err") and not bind, desc(p))
        if not bind:
            if not any(outcome(p, i) == "Err" for i, e in nm + ns):
                bad = [b for b in brs(p) if b.args[0].op == "discr" and b.args[1] == "Err" and any(x is T("f", inner, "port") for x in b.args[0].subs())]
                cx.ob("what-cannot-be-served-is-refused", W, bool(bad) and p.end == "ret" and agg_of(p.ret, "Result", "Err"), desc(p))
            continue
        seen.add("served")
        if not cx.ob("one-application-is-served", W, len(nm) == len(ns) == len(bind) == 1, desc(p)):
            continue
        mount = T("vf", nm[0][1].res, "Ok", "0")
        state = T("vf", ns[0][1].res, "Ok", "0")
        cx.ob("application-of-the-given-directory", W, nm[0][1].args[0] is T("f", T("f", opts, "common"), "dest_dir") and ns[0][1].args[0] is mount, desc(p))
        cx.ob("options-reach-the-state", W, ns[0][1].args[1] is T("param", "port_watch") and ns[0][1].args[2] is T("f", inner, "env"), desc(p))
        sh = [i for i, e in enumerate(p.trace) if e.kind == "store" and e.args[1] is state and any(x.op == "call" and x.a[0].endswith("RwLock::write") for x in e.args[0].subs())]
        cx.ob("requests-are-answered-by-the-new-application", W, bool(sh) and sh[0] < bind[0], desc(p))
        shared = [x.a[2] for i in sh for x in p.trace[i].args[0].subs() if x.op == "call" and x.a[0].endswith("RwLock::write")][:1]
        addr = [x for x in p.trace[bind[0]].args[0].subs() if x.op == "fmt"]
        ok = len(addr) == 1 and flat(addr[0]) == [T("f", inner, "host"), ":", T("f", inner, "port")]
        cx.ob("listens-at-the-given-address", W, ok, show(p.trace[bind[0]].args[0]))
        # files
        ms = T("f", state, "mount_path")
        dirs = [e for e in calls(p, r"Router::nest_service$") if e.args[2].op == "call" and "ServeDir::" in e.args[2].a[0]]
        ok = len(dirs) == 1 and plain(dirs[0].args[1]) is T("f", ms, "public_path") and [plain(x) for x in dirs[0].args[2].a[2:]] == [T("f", ms, "dest_dir")]
        cx.ob("files-are-served-from-the-directory-under-its-address", W, ok, desc(p))
        # proxies
        ip = [(i, e) for i, e in enumerate(p.trace) if e.kind == "call" and e.name.endswith("install_proxy")]
        cx.ob("every-proxy-is-installed", W, finished(p, lambda x: x is proxy), desc(p))
        turned = sum(1 for b in brs(p) if b.args[0].op == "discr" and b.args[0].a[0] is T("next", proxy) and b.args[1] == "Some")
        cx.ob("every-proxy-is-installed", W, len(ip) == turned, desc(p))
        it = T("item", proxy)
        for i, e in ip:
            seen.add("proxy")
            cx.ob("proxy-has-its-path-and-target", W, e.args[1] is T("f", it, "0") and e.args[2] is T("f", it, "1"), desc(p))
            bef, aft = turns(p, e.args[0])
            cx.ob("proxies-are-added-to-the-files", W, len(dirs) == 1 and any(b.has(dirs[0].res) for b in bef) and e.res in aft, desc(p))
        # everything else is a page
        fb = [e for e in calls(p, r"Router::fallback$")]
        ok = len(fb) == 1 and fb[0].args[1].op == "fn" and str(fb[0].args[1].a[0]).endswith("serve_run::handler")
        if cx.ob("everything-else-is-a-page", W, ok, desc(p)):
            base = fb[0].args[0]
            cx.ob("pages-are-added-to-files-and-proxies", W, len(dirs) == 1 and (base.has(dirs[0].res) or any(b.has(dirs[0].res) for x in base.subs() if x.op == "loop" for b in turns(p, x)[0])), desc(p))
            sv = calls(p, r"Builder::serve$")
            cx.ob("what-was-set-up-is-served", W, len(sv) == 1 and sv[0].args[1].has(fb[0].res) and bool(shared) and sv[0].args[1].has(shared[0]), desc(p))
    cx.ob("all-cases", W, seen == {"served", "proxy", "refused"}, str(seen))
    # a proxy
    W = RUN + "install_proxy"
    path, target = T("param", "path"), T("param", "target")
    n = set()
    for p in cx.run(W, SRW, unit=U, branches=anyb, opaque=SO):
        if not cx.ob("installing-cannot-panic", W, p.end == "ret", desc(p)):
            continue
        t = p.ret
        ok = t.op == "call" and t.a[0].endswith("Router::nest_service") and t.a[2] is T("param", "app") and plain(t.a[3]) is path
        if not cx.ob("proxy-answers-under-its-path", W, ok, show(t)[:200]):
            continue
        fb = [x for x in t.a[4].subs() if x.op == "call" and x.a[0].endswith("Router::fallback")]
        m, meth = fb[0].a[3] if len(fb) == 1 else T("none"), {}
        while m.op == "call" and re.search(r"(MethodRouter::|routing::method_routing::|routing::)(get|post)$", m.a[0]):
            k = m.a[0].rsplit("::", 1)[-1]
            meth.setdefault(k, m.a[-1])
            if len(m.a) == 3:
                break
            m = m.a[2]
        cx.ob("proxy-takes-get-and-post", W, {k for k in meth} >= {"get", "post"} and all(c.op == "clo" for c in meth.values()), show(t.a[4])[:200])
        for k, c in meth.items():
            if c.op != "clo":
                continue
            ins = cx.crate(U).insts[c.a[1]]
            for q in crun(cx, c, SRW, extra=[T("param", x) for x in ("url", "headers", "body")[:ins["nargs"] - 1 if "nargs" in ins else (1 if k == "get" else 3)]], branches=anyb, opaque=SO):
                fut = q.ret
                if not cx.ob("proxied-once", W, q.end == "ret" and fut.op == "clo", desc(q)):
                    continue
                for r in crun(cx, fut, SRW + [r"String::push\w*$"], branches=anyb, opaque=SO):
                    c_ = calls(r, r"serve_run::(get|post)_response$")
                    ok = r.end == "ret" and len(c_) == 1 and r.ret is T("await", c_[0].res) and c_[0].name.endswith(f"::{k}_response")
                    if not cx.ob("proxied-once", W, ok, desc(r)):
                        continue
                    n.add(k)
                    a = c_[0].args
                    cx.ob("proxied-address-is-the-target-and-the-rest", W, [x.a[-1] if x.__class__ is T and x.op == "str" else x for x in joined(r, plain(a[0]))] == [target, T("param", "url")], show(a[0]))
                    if k == "post":
                        cx.ob("proxied-with-its-headers-and-body", W, a[1] is T("param", "headers") and a[2] is T("f", T("param", "body"), "0"), desc(r))
    cx.ob("all-cases", W, n == {"get", "post"}, str(n))
    # what is asked and what is answered
    for k in ("get", "post"):
        W = RUN + k + "_response"
        url = T("param", "target_url")
        seen = set()
        for p in arun(cx, W, SRW, branches=anyb, stores=lambda t, v: True):
            if not cx.ob("proxying-cannot-panic", W, p.end == "ret", desc(p)):
                continue
            if k == "get":
                ask = calls(p, r"reqwest::get$") or calls(p, r"RequestBuilder::send$")
                ok = len(ask) == 1 and url in [plain(x) for x in ask[0].args[0].subs()]
                if ask and ask[0].name.endswith("send"):
                    ok = ok and any(x.op == "call" and x.a[0].endswith("Client::get") for x in ask[0].args[0].subs())
            else:
                ask = calls(p, r"RequestBuilder::send$")
                ok, t = False, ask[0].args[0] if len(ask) == 1 else T("none")
                parts = {}
                while t.op == "call" and "RequestBuilder::" in t.a[0]:
                    parts.setdefault(t.a[0].rsplit("::", 1)[-1], []).append(t.a[3:])
                    t = t.a[2]
                ok = t.op == "call" and t.a[0].endswith("Client::post") and plain(t.a[3]) is url
                hd, bd = parts.get("headers", []), parts.get("body", []) + parts.get("json", [])
                cx.ob("proxied-with-its-headers-and-body", W, len(hd) == 1 and hd[0][0] is T("param", "headers") and len(bd) == 1 and bd[0][0].has(T("param", "body")), str(sorted(parts)))
                gone = {hname(e.args[1]) for e in calls(p, r"HeaderMap::remove$") if e.args[0] is T("param", "headers")}
                cx.ob("length-is-that-of-the-body-sent", W, "content-length" in gone and gone <= HOP | {"content-length", "host"}, str(gone))
            if not cx.ob("proxied-to-the-target", W, ok, desc(p)):
                continue
            got = T("await", ask[0].res)
            st = [e for e in p.trace if e.kind == "store" and e.args[0].op == "call" and e.args[0].has(p.ret)]
            val = {e.args[0].a[0].rsplit("::", 1)[-1]: e.args[1] for e in st}
            code = val.get("status_mut", T("none"))
            fail = [b for b in brs(p) if b.args[0].op == "discr" and b.args[1] == "Err" and b.args[0].a[0].op == "await"]
            tup = p.ret.a[2] if p.ret.op == "call" and p.ret.a[0].endswith("into_response") and len(p.ret.a) > 2 else T("none")
            if tup.op == "agg" and tup.a[0] == "tuple":
                code = tup.a[3] if code.op == "none" else code
                if len(tup.a) > 5:
                    val.setdefault("headers_mut", tup.a[4])
                tup = tup.a[-1]
            if fail:
                seen.add("failed")
                cx.ob("failure-is-answered-as-an-error", W, code.op == "cpath" and re.search(r"::(INTERNAL_SERVER_ERROR|BAD_GATEWAY|GATEWAY_TIMEOUT|SERVICE_UNAVAILABLE)$", str(code.a[0])) is not None, desc(p))
                continue
            seen.add("answered")
            r = T("vf", got, "Ok", "0")
            body = [x for x in tup.subs() if x.op == "await" and x is not got and x.has(r)]
            hs = [x for x in val.get("headers_mut", T("none")).subs() if x.op == "call" and x.a[0].endswith("Response::headers") and x.a[2] is r]
            cx.ob("answer-has-the-body-of-the-target", W, len(body) == 1 and plain(tup) is T("vf", body[0], "Ok", "0"), show(p.ret)[:200])
            cx.ob("answer-has-the-status-of-the-target", W, code.op == "call" and code.a[0].endswith("Response::status") and code.a[2] is r, show(code)[:100])
            gone = {hname(e.args[1]) for e in calls(p, r"HeaderMap::remove$") if e.args[0].has(r)}
            other = [e for e in calls(p, r"HeaderMap::(insert|append|clear|drain|entry|extend)$") if e.args[0].has(r)]
            cx.ob("answer-has-the-headers-of-the-target", W, len(hs) == 1 and "transfer-encoding" in gone and gone <= HOP | {"content-length"} and not other, str(gone))
        cx.ob("all-cases", W, seen == {"failed", "answered"}, str(seen))
    # where the application is
    MPC = S + "mount_path::MountPathConfig"
    W = MPC + "::new"
    dest = T("param", "dest_dir")
    seen = set()
    for p in cx.run(W, [r"str::\w+$", r"Vec::\w+$", r"read_to_string$", r"serde_json::from_\w+$", r"::(rev|skip|take|next_back)$"], unit=U, branches=anyb, panics=True):
        if not cx.ob("finding-the-application-cannot-panic", W, p.end == "ret", desc(p)):
            continue
        if not agg_of(p.ret, "Result", "Ok"):
            seen.add("refused")
            continue
        seen.add("found")
        f = afields(p.ret.a[3])
        rd = [x for x in f["run_js"].subs() if x.op == "call" and re.search(r"(read_to_string|read)$", x.a[0])]
        ok = len(rd) == 1 and path_pieces(rd[0].a[2]) == [dest, "index.json"]
        cx.ob("index-of-the-given-directory", W, ok, show(rd[0]) if rd else "none")
        js = [x for x in f["run_js"].subs() if x.op == "call" and re.search(r"serde_json::from_\w+$", x.a[0]) and any(x.has(y) for y in rd)]
        if not cx.ob("index-is-read", W, len(js) == 1, show(f["run_js"])):
            continue
        idxm = T("vf", js[0], "Ok", "0")
        cx.ob("script-and-application-of-the-index", W, plain(f["run_js"]) is T("f", idxm, "run_js") and plain(f["wasm_path"]) is T("f", idxm, "wasm") and f["dest_dir"] is dest, show(p.ret)[:300])
        cx.ob("files-are-beside-the-application", W, base_dir(p, f["public_path"], T("f", idxm, "wasm")), show(f["public_path"]))
    cx.ob("all-cases", W, seen == {"refused", "found"}, str(seen))
    # an address of a file in the directory
    W = MPC + "::translate_to_fs"
    pub, dd = T("f", T("param", "self"), "public_path"), T("f", T("param", "self"), "dest_dir")
    seen = set()
    for i in [i for i in cx.crate(U).insts.values() if i["p"] == W]:
        for p in cx.run(i, [r"strip_prefix$"], unit=U, branches=anyb):
            if not cx.ob("finding-a-file-cannot-panic", W, p.end == "ret", desc(p)):
                continue
            sp = calls(p, "strip_prefix$")
            ok = len(sp) == 1 and plain(sp[0].args[0]) is T("param", "http_path") and plain(sp[0].args[1]) is pub
            if not cx.ob("address-is-below-the-public-path", W, ok, desc(p)):
                continue
            if agg_of(p.ret, "Result", "Ok"):
                seen.add("found")
                cx.ob("file-is-in-the-directory", W, joined(p, p.ret.a[3]) == [dd, T("vf", sp[0].res, "Some", "0")], show(p.ret))
            else:
                seen.add("refused")
                cx.ob("other-addresses-are-refused", W, [outcome(p, k) for k, e in ncalls(p, "strip_prefix$")] == ["None"], desc(p))
    cx.ob("all-cases", W, seen == {"refused", "found"}, str(seen))


def path_pieces(t):
    """the pieces of a file path"""
    t = plain(t)
    if t.op == "call" and re.search(r"Path(Buf)?::(join|push)$", t.a[0]):
        return path_pieces(t.a[2]) + path_pieces(t.a[3])
    if t.op == "call" and re.search(r"Path(Buf)?::(new|from|as_path|as_ref|to_path_buf)$", t.a[0]):
        return path_pieces(t.a[2])
    if t.op == "fmt":
        out = []
        for x in flat(t):
            out += [y for y in x.split("/") if y] if isinstance(x, str) else [x]
        return out
    return [t.a[0]] if t.op == "c" else [t]


def base_dir(p, t, path):
    """is t what comes before the last / of path?"""
    t = plain(t)
    for x in t.subs():
        if x.op == "call" and x.a[0].endswith("str::rsplit_once") and x.a[2] is path and x.a[3].op == "c" and x.a[3].a[0] in (47, "/"):
            return t is T("f", T("vf", x, "Some", "0"), "0")
        if x.op == "call" and x.a[0].endswith("str::rfind") and x.a[2] is path and x.a[3].op == "c" and x.a[3].a[0] in (47, "/"):
            return t.op == "call" and t.a[0].endswith("index") and t.a[2] is path and t.a[3].op == "agg" and t.a[3].a[0].endswith("RangeTo") and afields(t.a[3])["end"] is T("vf", x, "Some", "0")
    if t.op == "call" and t.a[0].endswith("::join") and t.a[3].op == "c" and t.a[3].a[0] in (47, "/"):
        v = t.a[2]
        parts = v.op == "call" and v.a[0].endswith("str::split") and v.a[2] is path and v.a[3].op == "c" and v.a[3].a[0] in (47, "/")
        ch = [e for e in p.trace if e.kind == "call" and e.args and e.args[0] is v and not re.search(r"::(is_empty|len|join|first|last|iter|as_slice)$", e.name)]
        return bool(parts) and len(ch) == 1 and ch[0].name.endswith("Vec::pop")
    return False
