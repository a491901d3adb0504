"""Reactive core: transactions, dependency graph, caches, subscriptions."""
import re
from ..core import check, Anchor
from ..q import *
from ..term import T, show, havoc

D = "vertigo::computed::dependencies::"
MODS = ("transaction_state", "struct_mut")
# operations that take something out of a standard collection
DESTR = r"^std::.*(Set|Map|Vec|VecDeque|String)::.*(clear|retain|truncate|drain|split_off|split_at|dedup\w*|pop\w*|swap_remove|extract_if|remove|take|first|last)$"


def state_seq(p):
    """(kind, ...) items in order: entry-state tests, state stores, user code, refreshes, end hooks"""
    out = []
    for e in p.trace:
        if e.kind == "br" and e.args[0].op == "discr" and str(e.args[0].a[1]).endswith("::State"):
            out.append(("is", e.args[1], e.args[0].a[0]))
        elif e.kind == "store" and e.args[1].op != "default":
            out.append(("set", e.args[1], e.args[0]))
        elif e.kind == "dyn":
            out.append(("user", e) if e.args[0].op == "param" else ("dyn", e))
        elif e.kind == "call" and e.name.endswith("Refresh::refresh"):
            out.append(("refresh", e))
        elif e.kind == "call" and e.name.endswith("Hooks::fire_end"):
            out.append(("end", e))
    return out


def transaction_paths(cx):
    f = cx.fn(D + "Dependencies::transaction")
    return f, cx.run(f, ["dyn-call", r"Refresh::refresh$", r"Hooks::fire_end$", DESTR],
                     inline=lambda p: any(m in p for m in MODS), panics=True,
                     opaque=lambda p: p.endswith("Refresh::refresh") or p.endswith("Hooks::fire_end"),
                     stores=lambda a, v: ends_field(a, "state") and has_field(a, "transaction_state"),
                     branches=lambda k: k.op == "discr" and str(k.a[1]).endswith("::State") or has_field(k, "level"))


@check("R01")
def r01(cx):
    f, ps = transaction_paths(cx)
    W = f["p"]
    entry = set()
    outer = inner = 0
    for p in ps:
        s = state_seq(p)
        kinds = [x[0] for x in s]
        if not s or s[0][0] != "is":
            cx.ob("state-tested-first", W, False, "the transaction state is not examined before anything else: " + desc(p))
            continue
        st0, old = s[0][1], s[0][2]
        entry.add(st0)
        if st0 == "Refreshing":
            continue  # R03
        if p.end != "ret":
            continue
        nuser = kinds.count("user")
        cx.ob("body-runs-once", W, nuser == 1, f"user closure called {nuser} times: " + desc(p))
        if nuser != 1:
            continue
        u = kinds.index("user")
        pre = [x for x in s[:u] if x[0] == "set"]
        ok = len(pre) == 1 and pre[0][1].op == "agg" and pre[0][1].a[1] == "Modification"
        if ok:
            flds = dict(zip(pre[0][1].a[2], pre[0][1].a[3:]))
            lv, cl = flds.get("level"), flds.get("client_ids")
            L = T("vf", old, "Modification", "level")
            if st0 == "Idle":
                ok = lv is not None and ev(lv, {}) == 1 and "client" not in show(cl)
                cx.ob("idle-enters-level-1-with-no-clients", W, ok, show(pre[0][1]))
            else:
                ok = lv is not None and ev(lv, {L: 5}) == 6 and cl is T("vf", old, "Modification", "client_ids")
                cx.ob("nested-enter-adds-one-level-keeps-clients", W, ok, show(pre[0][1]))
        else:
            cx.ob("enter-stores-modification", W, False, desc(p))
        ub = next(e for k, e in [(x[0], x[1]) for x in s] if k == "user")
        cx.ob("pending-set-never-shrunk", W, not calls(p, DESTR), desc(p))
        cx.ob("returns-the-body-result", W, p.ret is ub.res, show(p.ret))
        post = s[u + 1:]
        t2 = [x for x in post if x[0] == "is"]
        if not t2:
            cx.ob("leave-examines-state", W, False, desc(p))
            continue
        st1, old1 = t2[0][1], t2[0][2]
        refr = [x for x in post if x[0] == "refresh"]
        ends = [x for x in post if x[0] == "end"]
        sets = [x for x in post if x[0] == "set"]
        cx.ob("nothing-refreshed-before-leave", W, not [x for x in s[:u] if x[0] in ("refresh", "end")], desc(p))
        if st1 != "Modification":
            cx.ob("no-refresh-outside-transaction", W, not refr and not ends, desc(p))
            continue
        L = T("vf", old1, "Modification", "level")
        C = T("vf", old1, "Modification", "client_ids")
        fe1 = consistent(p, {L: 1})
        feN = [k for k in (2, 3, 9) if consistent(p, {L: k})]
        first = sets[0][1] if sets else None
        is_refreshing = first is not None and first.op == "agg" and first.a[1] == "Refreshing"
        if fe1 and not feN:
            outer += 1
            cx.ob("outermost-leave-enters-refresh", W, is_refreshing, desc(p))
            for r in refr:
                cx.ob("refreshes-collected-clients", W, len(r[1].args) > 1 and r[1].args[1] is T("item", C), show(r[1].args[1]))
            cx.ob("end-hooks-once-after-refresh", W, len(ends) == 1 and post.index(ends[0]) > max([post.index(r) for r in refr] or [-1]), desc(p))
            # back to idle before the hooks run (hooks may open transactions)
            i_end = post.index(ends[0]) if ends else len(post)
            later = [x for x in post[:i_end] if x[0] in ("set", "is")]
            idle = any(x[0] == "set" and x[1].op == "agg" and x[1].a[1] == "Idle" for x in later)
            other = [x for x in later if x[0] == "is" and x is not t2[0]]
            # the only way not to store Idle is to find the state already changed under us
            cx.ob("idle-before-end-hooks", W, idle or any(x[1] != "Refreshing" for x in other), desc(p))
            i_ref = max([post.index(r) for r in refr] or [-1])
            idle_at = [post.index(x) for x in later if x[0] == "set" and x[1].op == "agg" and x[1].a[1] == "Idle"]
            cx.ob("idle-only-after-refresh", W, all(i > i_ref for i in idle_at), desc(p))
        elif feN and not fe1:
            inner += 1
            ok = first is not None and first.op == "agg" and first.a[1] == "Modification"
            if ok:
                flds = dict(zip(first.a[2], first.a[3:]))
                ok = ev(flds["level"], {L: 5}) == 4 and flds["client_ids"] is C
            cx.ob("inner-leave-drops-one-level-keeps-clients", W, ok and len(sets) == 1, desc(p))
            cx.ob("inner-leave-refreshes-nothing", W, not refr and not ends, desc(p))
        else:
            cx.ob("leave-distinguishes-outermost", W, False, "one path serves both the outermost and a nested level: " + desc(p))
    cx.ob("entry-states-covered", W, {"Idle", "Modification"} <= entry, str(entry))
    # every collected client is refreshed: the loop visits the whole set and calls refresh in every iteration
    full = [p for p in ps if p.end == "ret" and any(x[0] == "refresh" for x in state_seq(p))]
    cx.ob("refresh-loop-exists", W, bool(full), "no path refreshes a client")
    cx.floor("outermost leaves", outer, 1)
    cx.floor("nested leaves", inner, 1)
    rf = cx.fn(D + "refresh::Refresh::refresh")
    for p in cx.run(rf, ["dyn-call", r"BTreeMap.*::get", "get_and_clone"]):
        d = [e for e in p.trace if e.kind == "dyn"]
        got = [e for e in p.trace if e.kind == "br" and e.args[1] == "Some"]
        if got:
            cx.ob("refresh-calls-the-token-with-refresh", rf["p"], len(d) == 1 and d[0].args[1:] == (T("c", 1),), desc(p))
    # the end hooks: the emitter is triggered once, and a registered hook runs once per trigger
    fe = cx.fn(D + "hook::Hooks::fire_end")
    for p in cx.run(fe, ["EventEmitter::trigger$"], opaque=opq("EventEmitter::trigger$")):
        e = calls(p, "trigger$")
        cx.ob("end-fires-every-hook-once", fe["p"], p.end != "ret" or len(e) == 1 and has_field(e[0].args[0], "callback_after_transaction"), desc(p))
    oa = cx.fn(D + "hook::Hooks::on_after_transaction")
    for p in cx.run(oa, ["EventEmitter::add$"], opaque=opq("EventEmitter::add$")):
        e = calls(p, "EventEmitter::add$")
        ok = len(e) == 1 and p.ret is e[0].res and has_field(e[0].args[0], "callback_after_transaction")
        cb = T("param", "callback")
        if ok and e[0].args[1] is not cb:
            cl = clos(e[0].args[1])
            ok = bool(cl)
            for q in cx.run(cx.crate().insts[cl[0].a[1]], ["dyn-call"], args=[havoc(cl[0])], branches=anyb) if cl else ():
                d = [x for x in q.trace if x.kind == "dyn"]
                ok = ok and (q.end != "ret" or len(d) == 1 and d[0].args[0] is cb)
        cx.ob("hook-runs-once-per-end", oa["p"], ok, desc(p))
    # the loop must not be able to skip an element: no path through the loop body without a refresh call
    loop_skip(cx, f, "Refresh::refresh")
    # the set kept between up and down is a set: one refresh per client
    adt = cx.crate().adts.get(D + "transaction_state::State")
    cx.need(adt, "transaction State enum")
    for v in adt["v"]:
        for fl in v["f"]:
            if fl["n"] == "client_ids":
                ty = cx.crate().ty(fl["t"])
                cx.ob("clients-kept-as-a-set", adt["file"], "Set<" in ty, ty)
    ac = cx.fn(D + "transaction_state::TransactionState::add_clients_to_refresh")
    n = 0
    for p in cx.run(ac, [r"::extend$", r"::append$", r"::insert$"], inline=lambda q: any(m in q for m in MODS),
                    branches=lambda k: k.op == "discr" and (str(k.a[1]).endswith("::State") or k.a[0].op == "next")):
        b = [e.args[1] for e in brs(p)]
        if "Modification" in b:
            n += 1
            dom = T("param", ac["locals"][2][1])
            ok = any(has_field(e.args[0], "client_ids") and e.args[1].has(dom) for e in calls(p, "extend|append|insert"))
            if not ok:  # one by one, over the whole set
                vis = [e for e in brs(p) if e.args[0].op == "discr" and e.args[0].a[0] is T("next", dom)]
                ok = bool(vis) and finished(p) and all(e.args[1] != "Some" for e in vis) or any(has_field(e.args[0], "client_ids") and e.args[1] is T("item", dom) for e in calls(p, "insert$"))
            cx.ob("clients-added-to-pending-set", ac["p"], ok, desc(p))
    cx.floor("add_clients paths inside a transaction", n, 1)


def loop_skip(cx, inst, callee, unit="vertigo"):
    """in the loop of `inst` that contains a call to `callee`, every cycle through the header passes the call"""
    cr = cx.crate(unit)
    for h, (body, asg) in cr.loops(inst).items():
        sites = [n for n in body if inst["blocks"][n]["t"]["k"] == "call" and (inst["blocks"][n]["t"]["f"].get("p") or "").endswith(callee)]
        if not sites:
            continue
        # remove the call blocks; header must not reach itself
        seen, wl, cyc = set(), [m for m in cr.succs(inst, h) if m in body and m not in sites], False
        while wl:
            x = wl.pop()
            if x == h:
                cyc = True
                break
            if x in seen:
                continue
            seen.add(x)
            wl += [m for m in cr.succs(inst, x) if m in body and m not in sites]
        cx.ob("loop-never-skips:" + callee, inst["p"], not cyc, "an iteration can return to the loop head without the call")
        return True
    return False


@check("R03")
def r03(cx):
    f, ps = transaction_paths(cx)
    W = f["p"]
    n = 0
    for p in ps:
        s = state_seq(p)
        if s and s[0][0] == "is" and s[0][1] == "Refreshing":
            n += 1
            cx.ob("no-user-code-while-refreshing", W, p.end == "panic" and not any(x[0] in ("user", "refresh", "end") for x in s), desc(p))
        i_ref = [i for i, x in enumerate(s) if x[0] == "refresh"]
        i_idle = [i for i, x in enumerate(s) if x[0] == "set" and x[1].op == "agg" and x[1].a[1] == "Idle"]
        if i_ref:
            r0 = max([i for i, x in enumerate(s) if x[0] == "set" and x[1].op == "agg" and x[1].a[1] == "Refreshing" and i < i_ref[0]] or [-1])
            cx.ob("refreshing-state-held-during-refresh", W, r0 >= 0 and not [i for i in i_idle if r0 < i < i_ref[-1]], desc(p))
    cx.floor("paths entered while refreshing", n, 1)
    # every write of a Value's content happens inside a transaction
    for w in value_writers(cx):
        ps = cx.run(w, [r"TransactionState::up$", r"TransactionState::down$"],
                    inline=lambda q: q.startswith("vertigo::computed::value::") or "ValueMut" in q or "InnerValue" in q or q.endswith("Dependencies::transaction") or "{closure" in q and "computed::value" in q,
                    opaque=lambda q: "TransactionState::" in q or "Refresh::" in q or "Hooks" in q or "report_set" in q,
                    stores=is_content_store)
        for p in ps:
            depth = 0
            for e in p.trace:
                if e.kind == "call" and e.name.endswith("::up"):
                    depth += 1
                if e.kind == "call" and e.name.endswith("::down"):
                    depth -= 1
                if e.kind == "store":
                    cx.ob("write-inside-transaction", w["p"], depth > 0, "content stored outside a transaction: " + desc(p))


def is_content_store(a, v):
    return ends_field(a, "value") and has_field(a, "inner") and not has_field(a, "transaction_state") and not has_field(a, "connections")


def value_writers(cx):
    """every body that passes a Value's content cell to a mutating cell method"""
    cr = cx.crate()
    out = []
    for fn in cr.fns:
        if fn.get("i") is None or "computed::value::Value" not in fn["p"] or fn["p"].endswith("::fmt"):
            continue
        inst = cr.insts[fn["i"]]
        if any(touches_content(cr, cr.insts[i]) for i in closure_tree(cr, inst)):
            out.append(inst)
    cx.floor("functions writing a value's content", len(out), 2)
    return out


def closure_tree(cr, inst):
    out, wl = [], [inst["id"]]
    while wl:
        x = wl.pop()
        if x in out:
            continue
        out.append(x)
        wl += [i for _, i, _ in cr.closures_built(cr.insts[x])]
    return out


MUTATORS = ("set", "change", "set_and_check", "set_if_changed", "move_to", "move_to_void", "change_no_params", "take", "replace")


def touches_content(cr, inst, which=MUTATORS):
    for n, t in cr.calls(inst):
        p = t["f"].get("p") or ""
        if "struct_mut::value_mut::ValueMut::" in p and p.rsplit("::", 1)[-1] in which:
            for b in inst["blocks"]:
                for s in b["s"]:
                    if s[0] == "=" and s[2][0] == "ref" and len(s[2][1]) > 1:
                        if any(isinstance(e, list) and e[0] == "f" and e[2:3] == ["value"] and str(e[3]).endswith("ValueInner") for e in s[2][1][1]):
                            return True
    return False


V = "vertigo::computed::"
GC = D + "graph_connections::"


def opq(rx):
    import re
    r = re.compile(rx)
    return lambda p: bool(r.search(p))


def anyb(k):
    return True


def per_item(cx, rule, W, ps, dom_pred, good, least=1):
    """on every path, every visited loop item whose domain satisfies dom_pred has good(path,item)"""
    n = 0
    for p in ps:
        cx.ob(rule + ":iteration-complete", W, finished(p, dom_pred), "the loop is left before every element was visited: " + desc(p))
        for e in p.trace:
            if e.kind == "br" and e.name == "=" and e.args[1] == "Some" and e.args[0].op == "discr" and e.args[0].a[0].op == "next":
                dom = e.args[0].a[0].a[0]
                if dom_pred(dom):
                    n += 1
                    cx.ob(rule, W, good(p, T("item", dom)), desc(p))
    cx.floor(rule + " visits", n, least)


def kind_on(p, t):
    """GraphIdKind established for the id term on this path"""
    for x, v, how in variants_on(p, "GraphIdKind"):
        if x.has(t) and how == "=":
            return v
    return None


@check("R02")
def r02(cx):
    # --- report_set: every transitive dependant is invalidated or queued
    f = cx.fn(D + "Dependencies::report_set")
    ps = cx.run(f, ["clear_cache$", "add_clients_to_refresh$", "::insert$", "::push$", "::extend$"],
                opaque=opq("clear_cache$|get_all_deps$|add_clients_to_refresh$"), branches=anyb)
    isdep = lambda d: d.op == "call" and d.a[0].endswith("get_all_deps") and T("param", "value_id") in d.a

    def handled(p, it):
        k = kind_on(p, it)
        adds = calls(p, "add_clients_to_refresh$")
        if len(adds) != 1:
            return False
        if k == "Computed":
            return any(e.args[-1] is it for e in calls(p, "clear_cache$"))
        if k == "Client":
            return ("elem", it) in contents(p, adds[0].args[-1]) and p.trace.index(adds[0]) > max(i for i, e in enumerate(p.trace) if e.kind == "call" and it in e.args)
        return False
    per_item(cx, "dependant-invalidated-or-queued", f["p"], ps, isdep, handled, 2)
    kinds = {kind_on(p, it) for p in ps for it in [e.args[0].a[0] for e in brs(p) if e.args[0].op == "discr" and str(e.args[0].a[1]).endswith("GraphIdKind")]}
    cx.ob("every-kind-of-dependant-handled", f["p"], {"Computed", "Client"} <= kinds, str(kinds))
    for p in ps:
        cx.ob("clients-always-queued", f["p"], p.end != "ret" or len(calls(p, "add_clients_to_refresh$")) == 1, desc(p))
        cx.ob("dependants-of-the-changed-value", f["p"], any(isdep(x) for e in brs(p) for x in e.args[0].subs()), desc(p))
    # --- get_all_deps: complete traversal
    f = cx.fn(D + "graph_connections::GraphConnections::get_all_deps")
    ps = cx.run(f, ["::insert$", "::push", "::extend$", "::pop", "get_relation$"], opaque=opq("GraphOneToMany::"), branches=anyb)
    idp = T("param", "id")
    n = 0
    for p in ps:
        if p.end != "ret":
            continue
        rel = calls(p, "get_relation$")
        cx.ob("every-child-visited", f["p"], not unfinished(p), "the loop over the children is left early: " + desc(p))
        for e in rel:
            cx.ob("traverses-child-edges", f["p"], ends_field(e.args[0], "parent_client"), show(e.args[0]))
            n += 1
        for b in brs(p):
            if b.args[0].op == "discr" and b.args[0].a[0].op == "next" and b.args[1] == "Some":
                dom = b.args[0].a[0].a[0]
                if not any(x.op == "call" and x.a[0].endswith("get_relation") for x in dom.subs()):
                    continue
                it = T("item", dom)
                in_res = ("elem", it) in contents(p, p.ret)
                pushed = any(e.args[-1] is it and e.args[0] is not p.ret and e.name.rsplit("::", 1)[-1] in ("push", "push_back", "insert", "push_front") for e in calls(p, "push|insert"))
                known = any(c.args[0].op == "call" and it in c.args[0].a and (
                    c.args[0].a[0].endswith("::contains") and c.args[0].a[2] is p.ret and c.args[1] == 1 or
                    c.args[0].a[0].endswith("::insert") and c.args[0].a[2] is p.ret and c.args[1] == 0) for c in brs(p))
                cx.ob("child-collected-and-traversed", f["p"], known or in_res and pushed, desc(p))
    cx.floor("relations looked up", n, 2)
    seeded = 0
    for p in ps:
        pops = [e for e in p.trace if e.kind == "call" and e.name.rsplit("::", 1)[-1].startswith("pop")]
        work = {e.args[0] for e in pops}
        for w in work:
            seeded += 1
            cx.ob("traversal-starts-at-the-value", f["p"], ("elem", idp) in contents(p, w), show(w))
        last = [b for b in brs(p) if b.args[0].op == "discr" and b.args[0].a[0].op == "call" and "::pop" in b.args[0].a[0].a[0]]
        if p.end == "ret" and pops:
            cx.ob("stops-only-when-worklist-empty", f["p"], bool(last) and last[-1].args[1] == "None", desc(p))
    # --- the token: invalidate drops the cache, refresh recomputes a live client
    nf = cx.fn(V + "graph_value::GraphValue::new")
    toks = []
    ra = cx.fn(D + "refresh::Refresh::refresh_token_add")
    for p in cx.run(ra, ["collections::.*Map.*::insert$"], branches=anyb):
        e = calls(p, "::insert$")
        cx.ob("refresh-token-filed-under-its-node", ra["p"], p.end != "ret" or len(e) == 1 and e[0].args[1] is T("param", "id") and e[0].args[2].has(T("param", "graph_value_refresh")), desc(p))
    for p in cx.run(nf, ["refresh_token_add$"], branches=anyb):
        for e in calls(p, "refresh_token_add$"):
            toks += [(p, e, x) for x in clos(e.args[2])[:1]]
        if p.end == "ret":
            cx.ob("node-registered-for-refresh", nf["p"], len(calls(p, "refresh_token_add$")) == 1 and afields(p.ret).get("id") is calls(p, "refresh_token_add$")[0].args[1], desc(p))
    cx.need(toks, "closure passed to refresh_token_add")
    tok = cx.crate().insts[toks[0][2].a[1]]
    ps = cx.run(tok, ["dyn-call", "push_context$"], opaque=opq("push_context$"), branches=anyb, stores=lambda a, v: ends_field(a, "state"))
    kp = T("param", tok["locals"][2][1]) if tok["argc"] >= 2 and len(tok["locals"][2]) > 1 else None
    cl = rf = 0
    for p in ps:
        b = {(e.args[0], e.args[1]) for e in brs(p)}
        k = [w for t, w in b if t is kp]
        alive = any(t.op == "discr" and t.a[0].op == "weakup" and w == "Some" for t, w in b)
        if not alive:
            continue
        st = [e for e in p.trace if e.kind == "store"]
        dyn = [e for e in p.trace if e.kind == "dyn"]
        if k == [0]:
            cl += 1
            cx.ob("invalidate-empties-cache", tok["p"], len(st) == 1 and st[0].args[1].op == "agg" and st[0].args[1].a[1] == "None" and not dyn, desc(p))
        elif k == [1]:
            some = any(t.op == "discr" and ends_field(t.a[0], "state") and w == "Some" for t, w in b)
            none = any(t.op == "discr" and ends_field(t.a[0], "state") and w == "None" for t, w in b)
            rf += 1
            cx.ob("refresh-recomputes-live-node", tok["p"], len(dyn) == 1 and bool(st) or none and not some, desc(p))
    cx.floor("invalidate paths", cl, 1)
    cx.floor("refresh paths", rf, 2)
    calc_rules(cx)
    # Refresh::clear_cache calls the token with "invalidate"
    rf = cx.fn(D + "refresh::Refresh::clear_cache")
    n = 0
    for p in cx.run(rf, ["dyn-call", "::get$"], branches=anyb):
        d = [e for e in p.trace if e.kind == "dyn"]
        if any(e.args[1] == "Some" for e in brs(p)):
            n += 1
            cx.ob("clear-cache-calls-token-with-invalidate", rf["p"], len(d) == 1 and is_false(d[0].args[1]) and d[0].args[0].has(T("param", "id")), desc(p))
    cx.floor("clear_cache with token", n, 1)


def calc_rules(cx):
    """GraphValue::get_value: cached only if present; otherwise recompute, publish the dependencies, then keep the result"""
    g = cx.fn(V + "graph_value::GraphValue::get_value")
    ps = cx.run(g, ["dyn-call", "push_context$", "add_parent$"], opaque=opq("push_context$|add_parent$"), branches=anyb,
                stores=lambda a, v: ends_field(a, "state"))
    hit = miss = 0
    for p in ps:
        if p.end != "ret":
            continue
        dyn = [(i, e) for i, e in enumerate(p.trace) if e.kind == "dyn" and ends_field(e.args[0], "get_value")]
        st = [(i, e) for i, e in enumerate(p.trace) if e.kind == "store"]
        pc = [(i, e) for i, e in enumerate(p.trace) if e.kind == "call" and e.name.endswith("push_context")]
        cached = [e for e in brs(p) if e.args[0].op == "discr" and ends_field(e.args[0].a[0], "state")]
        if not dyn:
            hit += 1
            cx.ob("cached-only-when-present", g["p"], bool(cached) and cached[0].args[1] == "Some" and p.ret is T("vf", cached[0].args[0].a[0], "Some", "0") and not st, desc(p))
            continue
        miss += 1
        ctx = dyn[0][1].args[1]
        cx.ob("computes-once", g["p"], len(dyn) == 1, desc(p))
        cx.ob("computes-with-a-fresh-context", g["p"], ctx is not T("param", "context") and agg_of(ctx, "::Context"), show(ctx))
        cx.ob("publishes-the-used-context", g["p"], len(pc) == 1 and pc[0][1].args[2] is ctx and ends_field(pc[0][1].args[1], "id") and pc[0][0] > dyn[0][0], desc(p))
        ok = len(st) == 1 and agg_of(st[0][1].args[1], "Option", "Some") and st[0][1].args[1].a[3] is dyn[0][1].res
        cx.ob("keeps-the-new-value", g["p"], ok, desc(p))
        # publishing the edges of a node nobody depends on clears its cache, so the store comes last
        cx.ob("edges-published-before-value-kept", g["p"], ok and len(pc) == 1 and pc[0][0] < st[0][0], desc(p))
        cx.ob("returns-the-new-value", g["p"], p.ret is dyn[0][1].res, show(p.ret))
    cx.floor("cached reads", hit, 1)
    cx.floor("computing reads", miss, 1)


def domains_of(p, t):
    """iterator domains this path walked (loops) or that collection `t` was collected from (adaptors)"""
    out = set(iters(p))
    for e in p.trace:
        if e.kind == "call":
            for a in e.args:
                out |= {x.a[0] for x in a.subs() if x.op == "mapped"}
    out |= {x.a[0] for x in t.subs() if x.op == "mapped"}
    return out


@check("R04")
def r04(cx):
    C = "vertigo::computed::graph_id::GraphId::"
    for nm, kind in (("new_value", "Value"), ("new_computed", "Computed"), ("new_client", "Client")):
        for p in cx.run(C + nm, ["fetch_add$"]):
            ok = p.end == "ret" and p.ret.op == "agg" and p.ret.a[3].op == "agg" and p.ret.a[3].a[1] == kind and len(calls(p, "fetch_add$")) == 1 and p.ret.a[4] is calls(p, "fetch_add$")[0].res
            cx.ob("graph-node-ids-are-fresh-and-typed", C + nm, ok, show(p.ret))
    only_counts_up(cx, via=C + "new_value")
    G1 = D + "graph_one_to_many::GraphOneToMany::"
    # --- the one-to-many map
    a = cx.fn(G1 + "add")
    L, R = [T("param", a["locals"][i][1]) for i in (2, 3)]
    for p in cx.run(a, ["::insert$", "::push$", "::entry$"], branches=anyb):
        ins = calls(p, "::insert$")
        # into the bucket of the parent; a whole new bucket only where the parent had none
        vacant = any(e.args[0].has(L) and (e.args[0].op == "discr" and e.args[1] in ("None", "Vacant") or e.args[0].op == "call" and e.args[0].a[0].endswith("contains_key") and e.args[1] == 0) for e in brs(p))
        bucket = [e for e in ins if L in e.args[0].subs()]
        whole = [e for e in ins if e.args[1] is L]
        if whole:
            ok = vacant and len(whole) == 1 and not bucket and [t for _, t in contents(p, whole[0].args[2])] == [R]
        else:
            ok = len(bucket) == 1 and bucket[0].args[1] is R
        cx.ob("add-records-the-edge", a["p"], ok, desc(p))
    r = cx.fn(G1 + "remove")
    L, R = [T("param", r["locals"][i][1]) for i in (2, 3)]
    n = 0
    for p in cx.run(r, ["::remove$", "::clear$", "::retain$", "::pop"], branches=anyb):
        ev_ = calls(p, "::remove$|::clear$|::retain$|::pop")
        inner = [e for e in ev_ if e.args[1:] == (R,) and e.args[0].has(L)]
        whole = [e for e in ev_ if e.args[1:] == (L,)]
        other = [e for e in ev_ if e not in inner and e not in whole]
        has = not any(e.args[1] == "None" and e.args[0].op == "discr" and e.args[0].has(L) for e in brs(p))
        if has:
            n += 1
            cx.ob("remove-deletes-exactly-the-edge", r["p"], len(inner) == 1 and not other, desc(p))
        if whole:
            emp = [e for e in brs(p) if (e.args[0].op == "call" and e.args[0].a[0].endswith("is_empty") and e.args[1] == 1 and e.args[0].has(L))]
            lenz = [e for e in brs(p) if e.args[0].op == "bin" and any(x.op == "call" and x.a[0].endswith("::len") for x in e.args[0].subs())]
            cx.ob("bucket-dropped-only-when-empty", r["p"], bool(emp or lenz), desc(p))
    cx.floor("remove paths with the parent present", n, 1)
    g = cx.fn(G1 + "get_relation")
    for p in cx.run(g, ["::get$"], branches=anyb):
        cx.ob("relation-is-the-bucket-of-the-id", g["p"], any(e.args[1] is T("param", g["locals"][2][1]) for e in calls(p, "::get$")), desc(p))
    # --- edge commands keep both directions in step
    f = cx.fn(GC + "GraphConnectionsInner::exec_command")
    ps = cx.run(f, ["GraphOneToMany::", "::push$", "::extend$", "::insert$"], opaque=opq("GraphOneToMany::"), branches=anyb)
    cmd = T("param", f["locals"][2][1])
    seen = set()
    for p in ps:
        var = next((v for t, v, h in variants_on(p, "UpdateConnection") if t is cmd and h == "="), None)
        seen.add(var)
        P_, C_ = T("vf", cmd, var, "parent"), T("vf", cmd, var, "client")
        op = "add" if var == "Add" else "remove"
        got = sorted((e.name.rsplit("::", 1)[-1], fields(e.args[0])[1][-1:], e.args[1:]) for e in calls(p, "GraphOneToMany::(add|remove)$"))
        want = sorted([(op, ["parent_client"], (P_, C_)), (op, ["client_parent"], (C_, P_))])
        cx.ob("edge-kept-in-both-directions", f["p"], [(a_, b_, tuple(map(id, c_))) for a_, b_, c_ in got] == [(a_, b_, tuple(map(id, c_))) for a_, b_, c_ in want], desc(p))
        if var == "Add":
            cx.ob("adding-removes-nothing", f["p"], not contents(p, p.ret), show(p.ret))
        if var == "Remove":
            # does the parent still have children?
            ch = [e for e in calls(p, "get_relation$") if ends_field(e.args[0], "parent_client") and e.args[1] is P_]
            rm = idx(p, "GraphOneToMany::remove$")
            cx.ob("children-looked-up-after-removal", f["p"], bool(ch) and p.trace.index(ch[0]) > max(rm or [10 ** 6]), desc(p))
            empt = None
            for e in brs(p):
                k = e.args[0]
                if ch and k.has(ch[0].res):
                    if k.op == "discr" and e.args[1] == "None" or k.op == "call" and k.a[0].endswith("is_empty") and e.args[1] == 1:
                        empt = True
                    elif k.op == "call" and k.a[0].endswith("is_empty") and e.args[1] == 0:
                        empt = False
            el = contents(p, p.ret)
            if empt is False:
                cx.ob("cascade-only-when-childless", f["p"], not el and not (p.ret.op == "mapped"), show(p.ret))
            elif empt is True:
                up = [e for e in calls(p, "get_relation$") if ends_field(e.args[0], "client_parent") and e.args[1] is P_]
                ok = bool(up)
                dom = up[0].res if up else None
                # either the mapped collection over all grand-parents, or a loop pushing one per item
                if ok:
                    for kind, t in el:
                        fl = afields(t) if t.op == "agg" else {}
                        ok = ok and agg_of(t, "UpdateConnection", "Remove") and fl.get("parent") is T("item", dom) and fl.get("client") is P_
                    visited = [e for e in brs(p) if e.args[0].op == "discr" and e.args[0].a[0] is T("next", dom)]
                    if p.ret.op == "mapped":
                        ok = ok and p.ret.a[0] is dom
                    elif any(e.args[1] == "Some" for e in visited):
                        ok = ok and bool(el)
                    else:
                        ok = ok and bool(visited)
                cx.ob("childless-parent-releases-all-its-parents", f["p"], ok, show(p.ret) + " | " + desc(p))
            else:
                cx.ob("cascade-decided-by-remaining-children", f["p"], False, desc(p))
    cx.ob("both-commands-handled", f["p"], {"Add", "Remove"} <= seen, str(seen))
    # --- diff of old and new parents
    f = cx.fn(GC + "GraphConnectionsInner::get_update_commands")
    cid, newp = T("param", f["locals"][2][1]), T("param", f["locals"][3][1])
    ps = cx.run(f, ["GraphOneToMany::", "::push$", "::extend$", "::append$", "::insert$", "::contains$"], opaque=opq("GraphOneToMany::"), branches=anyb)

    def diffdom(t):
        """which difference does a loop item range over?"""
        for x in t.subs():
            if x.op == "item":
                d = x.a[0]
                return d
        return None
    haveA = haveR = 0
    for p in ps:
        if p.end != "ret":
            continue
        prev = [e.res for e in calls(p, "get_relation$") if ends_field(e.args[0], "client_parent") and e.args[1] is cid]
        cx.ob("old-parents-are-the-recorded-ones", f["p"], bool(prev), desc(p))
        if not prev:
            continue
        prev = prev[0]
        same = any(e.args[0].op == "bin" and e.args[0].a[0] in ("Eq", "Ne") and set(e.args[0].a[1:]) == {newp, prev} and (e.args[0].a[0] == "Eq") == (e.args[1] == 1) for e in brs(p))
        if not same:
            doms = domains_of(p, p.ret)
            for nm, A, B in (("new", newp, prev), ("no-longer-read", prev, newp)):
                ok = any(d is A or d.op == "call" and d.a[0].endswith("::difference") and d.a[2] is A and d.a[3] is B for d in doms)
                cx.ob(f"all-{nm}-parents-examined", f["p"], ok and not unfinished(p), desc(p))
        for kind, t in contents(p, p.ret):
            if not agg_of(t, "UpdateConnection"):
                cx.ob("commands-are-edge-updates", f["p"], False, show(t))
                continue
            fl = afields(t)
            it = fl["parent"]
            d = it.a[0] if it.op == "item" else None
            A, B = (newp, prev) if t.a[1] == "Add" else (prev, newp)
            ok = fl["client"] is cid and d is not None
            if ok and d.op == "call" and d.a[0].endswith("::difference"):
                ok = d.a[2] is A and d.a[3] is B
            elif ok:  # loop over A guarded by !B.contains(item)
                ok = d is A and any(e.args[0].op == "call" and e.args[0].a[0].endswith("::contains") and e.args[0].a[2] is B and e.args[1] == 0 for e in brs(p))
            cx.ob(f"{t.a[1].lower()}s-exactly-the-difference", f["p"], ok, show(t))
            haveA += t.a[1] == "Add"
            haveR += t.a[1] == "Remove"
    cx.floor("add commands", haveA, 1)
    cx.floor("remove commands", haveR, 1)
    # --- the fixpoint: every produced command is executed, every touched parent re-examined
    f = cx.fn(GC + "GraphConnections::set_parent_for_client")
    ps = cx.run(f, ["exec_command$", "get_update_commands$", "get_info_about_active$", "::insert$", "::push$", "::extend$"],
                opaque=opq("GraphConnectionsInner::(exec_command|get_update_commands|get_info_about_active)$"), branches=anyb)
    cid = T("param", f["locals"][2][1])
    par = T("param", f["locals"][3][1])
    n = 0
    for p in ps:
        if p.end != "ret":
            continue
        gu, gi = calls(p, "get_update_commands$"), calls(p, "get_info_about_active$")
        cx.ob("diff-of-this-client", f["p"], len(gu) == 1 and gu[0].args[1:] == (cid, par), desc(p))
        cx.ob("activity-reported-for-touched-nodes", f["p"], len(gi) == 1 and p.ret is gi[0].res and ("elem", cid) in contents(p, gi[0].args[1]), desc(p))
        ex = calls(p, "exec_command$")
        for e in ex:
            n += 1
        # the loop ends only when no commands are left
        emp = [e for e in brs(p) if e.args[0].op == "call" and e.args[0].a[0].endswith("is_empty")]
        cx.ob("ends-only-when-no-commands-left", f["p"], bool(emp) and emp[-1].args[1] == 1, desc(p))
        cx.ob("command-loops-complete", f["p"], finished(p), desc(p))
        # every command visited is executed / noted
        for e in brs(p):
            if e.args[0].op == "discr" and e.args[0].a[0].op == "next" and e.args[1] == "Some":
                it = T("item", e.args[0].a[0].a[0])
                exd = any(it in x.args for x in ex)
                noted = any(k == "elem" and (t.has(it)) for k, t in (contents(p, gi[0].args[1]) if gi else []))
                cx.ob("command-executed-or-parent-noted", f["p"], exd or noted, desc(p))
    cx.floor("executed commands", n, 1)
    # the parent of every executed command is noted: the same rounds of commands feed both
    did = {a.a[0] for p in ps for e in calls(p, "exec_command$") for a in e.args if a.op == "item"}
    noted = {x.a[0] for p in ps if p.end == "ret" for e in calls(p, "get_info_about_active$") for k, t in contents(p, e.args[1]) for x in t.subs() if x.op == "item" and t.op == "vf" and t.a[2] == "parent"}
    cx.ob("every-executed-command's-parent-noted", f["p"], did <= noted, "commands of " + ", ".join(show(d) for d in did - noted) + " are executed but the activity of their parents is not re-examined")
    cx.ob("parents-of-commands-noted", f["p"], any(k == "elem" and t.op == "vf" and t.a[2] == "parent" for p in ps for e in calls(p, "get_info_about_active$") for k, t in contents(p, e.args[1])), "no command's parent is ever re-examined")
    # --- activity = has children
    f = cx.fn(GC + "GraphConnectionsInner::get_info_about_active")
    ps = cx.run(f, ["get_relation$", "::insert$"], opaque=opq("GraphOneToMany::get_relation$"), branches=anyb)
    nd = T("param", f["locals"][2][1])
    n = 0
    for p in ps:
        def right(v, R):
            """v is `the relation R has children` on this path"""
            if is_false(v) or is_true(v):
                em = None
                for b in brs(p):
                    if b.args[0].has(R):
                        if b.args[0].op == "discr" and b.args[1] == "None":
                            em = True
                        elif b.args[0].op == "call" and b.args[0].a[0].endswith("is_empty"):
                            em = b.args[1] == 1
                return em is not None and em == is_false(v)
            neg = 0
            while v.op == "not":
                v, neg = v.a[0], neg + 1
            return v.op == "call" and v.a[0].endswith("is_empty") and v.has(R) and neg % 2 == 1
        it = T("item", nd)
        rel = [x for x in calls(p, "get_relation$") if x.args[1] is it and ends_field(x.args[0], "parent_client")]
        if p.ret is not None and p.ret.op == "mapped" and p.ret.a[0] is nd:
            if not any(x.op == "empty" for x in p.ret.a[1].subs()):
                n += 1
                el = p.ret.a[1]
                cx.ob("active-iff-it-has-children", f["p"], agg_of(el, "tuple") and el.a[3] is it and len(rel) == 1 and right(el.a[4], rel[0].res), show(p.ret))
            continue
        cx.ob("every-touched-node-examined", f["p"], finished(p), desc(p))
        for e in brs(p):
            if e.args[0].op == "discr" and e.args[0].a[0] is T("next", nd) and e.args[1] == "Some":
                ins = [x for x in calls(p, "::insert$") if x.args[1] is it and x.args[0] is p.ret]
                ok = len(ins) == 1 and len(rel) == 1
                n += ok
                cx.ob("active-iff-it-has-children", f["p"], ok and right(ins[0].args[2], rel[0].res), desc(p))
    cx.floor("nodes examined", n, 2)
    # --- the graph acts on what became (in)active
    f = cx.fn(D + "graph::Graph::set_parent_for_client")
    ps = cx.run(f, ["clear_cache$", "set_connection$"], opaque=opq("clear_cache$|set_connection$|GraphConnections::"), branches=anyb)
    n = 0
    for p in ps:
        its = {e.args[0].a[0].a[0] for e in brs(p) if e.args[0].op == "discr" and e.args[0].a[0].op == "next" and e.args[1] == "Some"}
        cx.ob("every-activity-change-handled", f["p"], finished(p), desc(p))
        for d in its:
            it = T("item", d)
            idt, act = T("f", it, "0"), T("f", it, "1")
            k = kind_on(p, idt)
            A = next((e.args[1] for e in brs(p) if e.args[0] is act), None)
            if k == "Value":
                sc = calls(p, "set_connection$")
                ok = len(sc) == 1 and sc[0].args[1] is idt and (sc[0].args[2] is act or sc[0].args[2] is T("c", A))
                cx.ob("value-connection-follows-activity", f["p"], ok, desc(p))
            elif k in ("Computed", "Client"):
                cc = calls(p, "clear_cache$")
                if A == 0:
                    cx.ob("inactive-node-drops-its-cache", f["p"], len(cc) == 1 and cc[0].args[1] is idt, desc(p))
                else:
                    cx.ob("active-node-keeps-its-cache", f["p"], A == 1 and not cc, desc(p))
            else:
                cx.ob("node-kind-examined", f["p"], False, desc(p))
            n += 1
    cx.floor("activity reactions", n, 5)
    pc = cx.fn(D + "graph::Graph::push_context")
    for p in cx.run(pc, ["set_parent_for_client$", "get_parents$", DESTR], opaque=opq("set_parent_for_client$|get_parents$")):
        sp = calls(p, "graph::Graph::set_parent_for_client$")
        ok = len(sp) == 1 and sp[0].args[1] is T("param", "client_id") and sp[0].args[2].has(T("param", "context"))
        cx.ob("context-becomes-the-parents", pc["p"], ok and not calls(p, DESTR), desc(p))


@check("R05")
def r05(cx):
    cr = cx.crate()
    d = cx.fn("<vertigo::computed::graph_value::GraphValue as std::ops::Drop>::drop")
    for p in cx.run(d, ["refresh_token_drop$", "Graph::remove_client$"], opaque=opq("refresh_token_drop$|remove_client$")):
        for w in ("refresh_token_drop", "remove_client"):
            e = calls(p, w + "$")
            cx.ob("drop-calls-" + w, d["p"], len(e) == 1 and e[0].args[1] is T("f", T("param", "self"), "id"), desc(p))
    rc = cx.fn(D + "graph::Graph::remove_client")
    for p in cx.run(rc, ["set_parent_for_client$"], opaque=opq("set_parent_for_client$")):
        e = calls(p, "graph::Graph::set_parent_for_client$")
        ok = len(e) == 1 and e[0].args[1] is T("param", "client_id") and e[0].args[2].op == "call" and e[0].args[2].a[0].endswith("::new")
        cx.ob("removed-client-has-no-parents", rc["p"], ok, desc(p))
    rd = cx.fn(D + "refresh::Refresh::refresh_token_drop")
    for p in cx.run(rd, ["BTreeMap.*::remove$", "HashMap.*::remove$"]):
        e = calls(p, "::remove$")
        cx.ob("token-removed", rd["p"], bool(e) and e[-1].args[1] is T("param", "id") and has_field(e[-1].args[0], "refresh"), desc(p))
    ra = cx.fn(D + "refresh::Refresh::refresh_token_add")
    for p in cx.run(ra, ["collections::.*Map.*::insert$"]):
        e = calls(p, "::insert$")
        cx.ob("token-stored", ra["p"], len(e) == 1 and e[0].args[1] is T("param", "id") and e[0].args[2].has(T("param", "graph_value_refresh")), desc(p))
    # the token must not keep the node alive
    nf = cx.fn(V + "graph_value::GraphValue::new")
    k = 0
    for n, i, st in cr.closures_built(nf):
        ty = [cr.ty(l[0]) for l in cr.insts[i]["locals"]]
        inst = cr.insts[i]
        for p in cx.run(inst, ["dyn-call"], branches=anyb):
            k += 1
            # the body touches the node only through an upgraded weak handle
            strong = [e for e in p.trace if e.kind == "br" and e.args[0].op == "discr" and e.args[0].a[0].op == "weakup"]
            if any(e.kind == "dyn" for e in p.trace):
                cx.ob("token-holds-node-weakly", inst["p"], bool(strong), desc(p))
        strong = [t for t in (cr.ty(cap_ty(cr, nf, o)) for o in st[2][2]) if "GraphValue<" in t and "Weak<" not in t]
        cx.ob("token-does-not-own-its-node", inst["p"], not strong, "the refresh token kept by the graph owns the node: " + "; ".join(strong))
    cx.floor("token paths", k, 2)
    nothing_leaked(cx)
    # subscriptions: the handle owns the node
    for nm in ("subscribe", "subscribe_all"):
        f = cx.fn(V + "computed_box::Computed::" + nm)
        for p in cx.run(f, ["GraphValue::new$", "std::mem::forget"], opaque=opq("GraphValue::(get_value|new)$")):
            g = calls(p, "GraphValue::new$")
            ok = len(g) == 1 and agg_of(p.ret, "DropResource", "Struct") and p.ret.a[3] is g[0].res and not calls(p, "forget")
            cx.ob("handle-owns-the-subscription", f["p"], ok, show(p.ret))
    # DropResource runs its action exactly once
    d = cx.fn("<vertigo::computed::drop_resource::DropResource as std::ops::Drop>::drop")
    n = 0
    for p in cx.run(d, ["dyn-call"], branches=anyb, stores=lambda a, v: True):
        b = {(show(e.args[0]), e.args[1]) for e in brs(p)}
        fun = any(e.args[1] == "Fun" for e in brs(p))
        some = any(e.args[1] == "Some" for e in brs(p))
        dyn = [e for e in p.trace if e.kind == "dyn"]
        if fun and some:
            n += 1
            cleared = [i for i, e in enumerate(p.trace) if e.kind == "store" and e.args[1].op == "agg" and e.args[1].a[1] == "None"]
            cx.ob("drop-action-runs-once", d["p"], len(dyn) == 1 and bool(cleared), desc(p))
        elif fun:
            cx.ob("no-action-left", d["p"], not dyn, desc(p))
    cx.floor("drop actions", n, 1)
    nw = cx.fn(V + "drop_resource::DropResource::new")
    for p in cx.run(nw, ["dyn-call"]):
        ok = agg_of(p.ret, "DropResource", "Fun") and agg_of(p.ret.a[3], "Option", "Some") and p.ret.a[3].a[3] is T("param", nw["locals"][1][1])
        cx.ob("drop-action-kept", nw["p"], ok and not [e for e in p.trace if e.kind == "dyn"], show(p.ret))
    emitters(cx)


LEAK = re.compile(r"mem::forget$|ManuallyDrop::<?.*new$|(Rc|Arc)::<?.*(into_raw|increment_strong_count)$|Box::<?.*(leak|into_raw)$")


def nothing_leaked(cx, where=("vertigo::computed::",), least=100):
    """no handle, node or value of these modules is leaked (its registration would outlive it)"""
    cr = cx.crate()
    n = 0
    for inst in cr.insts.values():
        if not inst["p"].lstrip("<").startswith(where) or "::tests::" in inst["p"]:
            continue
        n += 1
        bad = [t["f"].get("p") for b, t in cr.calls(inst) if LEAK.search(t["f"].get("p") or "")]
        cx.ob("nothing-leaked", inst["p"], not bad, str(bad))
    cx.floor("functions scanned for leaks", n, least)


def all_of(p, dom, field):
    """the iteration domain is all of the collection in `field` (taken apart by element, or copied whole into a list)"""
    while True:
        if dom.op in ("mapped", "enum", "rev"):
            dom = dom.a[0]
        elif dom.op == "call" and dom.a[0].rsplit("::", 1)[-1] in ("values", "into_values", "iter", "into_iter") and len(dom.a) > 2:
            dom = dom.a[2]
        else:
            break
    if dom.op == "call":
        c = contents(p, dom)
        return len(dom.a) <= 3 and dom.a[0].rsplit("::", 1)[-1] in ("new", "with_capacity", "default") and all(k == "elem" and any(x.op == "item" and all_of(p, x.a[0], field) for x in t.subs()) for k, t in c)
    while dom.op == "f":
        if dom.a[1] == field:
            return True
        dom = dom.a[0]
    return False


def emitters(cx):
    """listener registered under a fresh id and removed, by that id, when its handle is dropped"""
    f = cx.fn("vertigo::driver_module::event_emitter::EventEmitter::add")
    for p in cx.run(f, ["collections::.*Map.*::(insert|remove)$", "get_next$"], opaque=opq("get_next$")):
        ins = calls(p, "::insert$")
        nid = calls(p, "get_next$")
        ok = len(ins) == 1 and len(nid) == 1 and ins[0].args[1] is nid[0].res and ins[0].args[2].has(T("param", "callback"))
        cx.ob("listener-added-under-fresh-id", f["p"], ok, desc(p))
        if not ok:
            continue
        cl = [x for x in clos(p.ret)]
        ok = agg_of(p.ret, "DropResource", "Fun") and bool(cl)
        if ok:
            inst = cx.crate().insts[cl[0].a[1]]
            caps = cl[0].a[2:]
            for q in cx.run(inst, ["collections::.*Map.*::(remove|clear|insert)$"], args=[havoc(cl[0])]):
                rm = calls(q, "::(remove|clear|insert)$")
                ok = ok and len(rm) == 1 and rm[0].name.endswith("remove") and rm[0].args[1] is nid[0].res and rm[0].args[0] is ins[0].args[0]
        cx.ob("listener-removed-with-its-handle", f["p"], ok, show(p.ret))
    t = cx.fn("vertigo::driver_module::event_emitter::EventEmitter::trigger")
    n = 0
    for p in cx.run(t, ["dyn-call", "::push(_back)?$"], branches=anyb):
        vis = [e for e in brs(p) if e.args[0].op == "discr" and e.args[0].a[0].op == "next"]
        if any(e.args[1] == "None" and contents(p, e.args[0].a[0].a[0]) and not any(x is not e and x.args[0] is e.args[0] for x in vis) for e in vis):
            continue    # a list that was given an element is not empty
        dyn = [e for e in p.trace if e.kind == "dyn"]
        cx.ob("no-listener-skipped", t["p"], finished(p) and all(all_of(p, e.args[0].a[0].a[0], "list") for e in vis), desc(p))
        if any(e.args[1] == "Some" for e in vis):
            n += 1
            cx.ob("every-listener-called-with-the-value", t["p"], len(dyn) >= 1 and all(e.args[1] is T("param", "value") for e in dyn), desc(p))
    cx.floor("trigger visits", n, 1)
    cn = cx.fn("vertigo::computed::struct_mut::counter_mut::CounterMut::get_next")
    for p in cx.run(cn, ["nothing"], stores=lambda a, v: True):
        st = [e for e in p.trace if e.kind == "store"]
        ok = len(st) == 1 and ev(st[0].args[1], {st[0].args[0]: 7}) == 8 and p.ret is not None and (p.ret is st[0].args[0] or ev(p.ret, {st[0].args[0]: 7}) is not None or p.ret.op == "old")
        cx.ob("ids-are-fresh", cn["p"], ok, desc(p) + " ret=" + show(p.ret))


@check("R06")
def r06(cx):
    f = cx.fn(D + "external_connections::ExternalConnections::set_connection")
    idp, sc = T("param", f["locals"][2][1]), T("param", f["locals"][3][1])
    con = dis = already = 0
    for p in cx.run(f, ["dyn-call", "collections::.*Map.*::(insert|remove|contains_key|get|entry)$"], branches=anyb):
        want = next((e.args[1] for e in brs(p) if e.args[0] is sc), None)
        dyn = [e for e in p.trace if e.kind == "dyn"]
        ins = [e for e in calls(p, "::insert$") if has_field(e.args[0], "connected_resource")]
        rem = [e for e in calls(p, "::remove$") if has_field(e.args[0], "connected_resource")]
        touch = [e for e in calls(p, "::(insert|remove)$") if has_field(e.args[0], "connect")]
        cx.ob("connectors-untouched", f["p"], not touch, desc(p))
        if want == 0:
            dis += 1
            cx.ob("disconnect-releases-resource", f["p"], len(rem) == 1 and rem[0].args[1] is idp and not ins and not dyn, desc(p))
            continue
        cx.ob("connection-decided-by-flag", f["p"], want == 1, desc(p))
        present = None
        for e in brs(p):
            k = e.args[0]
            if has_field(k, "connected_resource") and k.has(idp):
                if k.op == "discr":
                    present = e.args[1] == "Some"
                elif k.op == "call" and k.a[0].endswith("contains_key"):
                    present = e.args[1] == 1
        if present:
            already += 1
            cx.ob("connected-value-not-connected-again", f["p"], not dyn and not ins and not rem, desc(p))
        elif dyn:
            con += 1
            ok = present is False and len(dyn) == 1 and has_field(dyn[0].args[0], "connect") and dyn[0].args[0].has(idp)
            ok = ok and len(ins) == 1 and ins[0].args[1] is idp and ins[0].args[2] is dyn[0].res
            cx.ob("connect-once-and-keep-the-resource", f["p"], ok, desc(p))
        else:
            none = any(e.args[0].op == "discr" and has_field(e.args[0], "connect") and e.args[1] == "None" for e in brs(p))
            cx.ob("not-connected-only-without-connector", f["p"], present is False and none and not ins, desc(p))
    cx.floor("connect paths", con, 1)
    cx.floor("disconnect paths", dis, 1)
    cx.floor("already-connected paths", already, 1)
    for nm, want in (("register_connect", "insert"), ("unregister_connect", "remove")):
        g = cx.fn(D + "external_connections::ExternalConnections::" + nm)
        for p in cx.run(g, ["collections::.*Map.*::(insert|remove|clear)$"], branches=anyb):
            e = calls(p, "::(insert|remove|clear)$")
            ok = len(e) == 1 and e[0].name.endswith(want) and has_field(e[0].args[0], "connect") and e[0].args[1] is T("param", "id")
            if want == "insert":
                ok = ok and e[0].args[2] is T("param", "connect")
            cx.ob(nm + "-by-id", g["p"], ok, desc(p))
    d = cx.fn("<vertigo::computed::value::ValueInner as std::ops::Drop>::drop")
    for p in cx.run(d, ["unregister_connect$"], opaque=opq("unregister_connect$")):
        e = calls(p, "unregister_connect$")
        cx.ob("dropped-value-forgets-its-connector", d["p"], len(e) == 1 and e[0].args[1] is T("f", T("param", "self"), "id"), desc(p))
    nothing_leaked(cx)
    w = cx.fn(V + "value::Value::with_connect")
    cr = cx.crate()
    for p in cx.run(w, ["register_connect$", "dyn-call"], opaque=opq("register_connect$|GraphValue::(get_value|new)$")):
        e = calls(p, "register_connect$")
        dyn = [x for x in p.trace if x.kind == "dyn"]
        cx.ob("not-connected-before-the-first-reader", w["p"], not dyn, desc(p))
        cl = [x for x in clos(e[0].args[2])] if e else []
        ok = len(e) == 1 and bool(cl)
        if ok:
            inst = cr.insts[cl[0].a[1]]
            n = 0
            for q in cx.run(inst, ["dyn-call"], args=[havoc(cl[0])], branches=anyb):
                dd = [x for x in q.trace if x.kind == "dyn"]
                if dd:
                    n += 1
                    ok = ok and len(dd) == 1 and q.ret is dd[0].res and dd[0].args[0] is T("param", "create")
            ok = ok and n >= 1
            # the id under which the connector is filed is the id of the value handed to it
            vid = e[0].args[1]
            ok = ok and cl[0].has(vid) and p.ret.has(vid)
        cx.ob("connector-filed-under-its-value", w["p"], ok, desc(p))
    # the connector must not own the value whose drop removes it
    n = 0
    for inst in list(cr.insts.values()):
        for bb, t in cr.calls(inst):
            if (t["f"].get("p") or "").endswith("ExternalConnections::register_connect") and inst["p"].startswith("vertigo::computed"):
                n += 1
    for b, i, s in cr.closures_built(w):
        tys = [cr.ty(cap_ty(cr, w, o)) for o in s[2][2]]
        strong = [t for t in tys if "value::Value<" in t and "Weak<" not in t]
        cx.ob("connector-does-not-own-its-value", w["p"], not strong, "the connector filed in the registry keeps the value alive, so the removal in the value's drop never happens: " + "; ".join(strong))
    cx.floor("register_connect call sites", n, 1)


def cap_ty(cr, inst, o):
    if o[0] in ("m", "c") or o[0] in ("move", "copy"):
        pl = o[1]
        return inst["locals"][pl[0]][0]
    return o[1].get("t") if isinstance(o[1], dict) else inst["locals"][0][0]


WRITERS = ["Value::set", "Value::change", "Value::set_value_and_compare"]


@check("R07")
def r07(cx):
    cr = cx.crate()
    ws = value_writers(cx)
    names = {w["p"] for w in ws}
    n = 0
    entries = [f for f in cr.fns if f.get("i") is not None and (
        f["p"] in names or f["p"] == V + "value::Value::change" or "computed::value::Value as vertigo::computed::reactive::Reactive>::" in f["p"] or "computed::value::Value as vertigo::Reactive>::" in f["p"])]
    entries = [f for f in entries if not f["p"].endswith("::get")]
    for f in entries:
        inst = cr.insts[f["i"]]
        ps = cx.run(inst, [r"TransactionState::(up|down)$", "report_set$", "dyn-call", r"value::Value::(set|change|set_value_and_compare)$"], branches=anyb,
                    inline=lambda q: "computed::value" in q or "ValueMut" in q or "InnerValue" in q or q.endswith("Dependencies::transaction"),
                    opaque=opq("TransactionState::|Refresh::|Hooks|report_set$|GraphValue::"),
                    stores=is_content_store)
        me = T("param", "self")
        for p in ps:
            if p.end != "ret":
                continue
            depth, stored, reported, ok = 0, None, None, True
            deleg = False
            seq = []
            for i, e in enumerate(p.trace):
                if e.kind == "call" and e.name.endswith("::up"):
                    depth += 1
                elif e.kind == "call" and e.name.endswith("::down"):
                    depth -= 1
                elif e.kind == "store":
                    stored = e
                    ok = ok and depth > 0
                elif e.kind == "call" and e.name.endswith("report_set"):
                    reported = e
                    ok = ok and depth > 0 and ends_field(e.args[1], "id") and e.args[1].has(me)
                elif e.kind == "call" and re.search(r"Value::(set|set_value_and_compare|change)$", e.name) and e.args and e.args[0] is me:
                    if e.loc[0] != inst["p"] or True:
                        deleg = e
            n += 1
            dyn = [e for e in p.trace if e.kind == "dyn"]
            if dyn:
                # change: the mutated copy is what gets written, after the callback ran once
                cx.ob("change-callback-runs-once", inst["p"], len(dyn) == 1, desc(p))
                wr = deleg if deleg and p.trace.index(deleg) > p.trace.index(dyn[0]) else None
                arg = dyn[0].args[1]
                cx.ob("changed-copy-written-back", inst["p"], bool(wr) and not (wr.args[1].op == "param") or bool(stored and reported and ok), desc(p))
                continue
            if stored is not None:
                newv = T("param", "value") if "value" in [l[1] for l in inst["locals"][1:inst["argc"] + 1] if len(l) > 1] else None
                eqs = [e for e in brs(p) if e.args[0].op == "bin" and e.args[0].a[0] in ("Eq", "Ne") and has_field(e.args[0], "value")]
                same = any((e.args[0].a[0] == "Eq") == (e.args[1] == 1) for e in eqs)
                diff = any((e.args[0].a[0] == "Eq") == (e.args[1] == 0) for e in eqs)
                cx.ob("stored-content-is-the-argument", inst["p"], stored.args[1].op == "param" and stored.args[1] is not me, show(stored.args[1]))
                comparing = inst["p"].endswith("set_value_and_compare")
                cx.ob("write-announced-unless-equal" if comparing else "write-always-announced", inst["p"], ok and (reported is not None) == (not comparing or not (same and not diff)), desc(p))
            elif deleg:
                cx.ob("delegates-the-argument", inst["p"], deleg.args[1].op == "param" and deleg.args[1] is not me, desc(p))
            else:
                eqs = [e for e in brs(p) if e.args[0].op == "bin" and e.args[0].a[0] in ("Eq", "Ne") and has_field(e.args[0], "value")]
                cx.ob("nothing-written-only-when-equal", inst["p"], any((e.args[0].a[0] == "Eq") == (e.args[1] == 1) for e in eqs) and reported is None, desc(p))
    cx.floor("write paths", n, 6)
    cx.floor("write entry points", len(entries), 5)


@check("R08")
def r08(cx):
    cr = cx.crate()
    for path, idf in ((V + "value::Value::get", ["inner", "id"]), (V + "graph_value::GraphValue::get_value", ["id"]), (V + "computed_box::Computed::get", ["inner", "id"])):
        f = cx.fn(path)
        for p in cx.run(f, ["Context::add_parent$"], opaque=opq("push_context$|add_parent$"), branches=anyb):
            e = [x for x in calls(p, "add_parent$") if x.args[0] is T("param", "context")]
            ok = p.end != "ret" or len(e) >= 1 and all(fields(x.args[1]) == (T("param", "self"), idf) for x in e)
            cx.ob("read-registers-the-dependency", f["p"], ok, desc(p))
    a = cx.fn(V + "context::Context::add_parent")
    for p in cx.run(a, ["::(push|insert|extend|push_back)$"], branches=anyb):
        e = [x for x in calls(p, "^std::.*::(push|insert|extend|push_back)$")]
        cx.ob("dependency-kept", a["p"], any(x.args[1] is T("param", a["locals"][2][1]) and has_field(x.args[0], "parent_ids") for x in e), desc(p))
    g = cx.fn(V + "context::Context::get_parents")
    for p in cx.run(g, ["::(insert|extend|push)$", DESTR], branches=anyb):
        cx.ob("no-dependency-taken-out", g["p"], not calls(p, DESTR), desc(p))
        ok = p.ret is not None and has_field(p.ret, "parent_ids") and not any(x.op == "call" for x in p.ret.subs())
        if not ok:
            vis = [e for e in brs(p) if e.args[0].op == "discr" and e.args[0].a[0].op == "next" and has_field(e.args[0], "parent_ids")]
            items = [e for e in vis if e.args[1] == "Some"]
            ok = bool(vis) and all(("elem", T("item", e.args[0].a[0].a[0])) in contents(p, p.ret) for e in items) or \
                any(k == "all" and has_field(t, "parent_ids") for k, t in contents(p, p.ret))
        cx.ob("all-recorded-dependencies-returned", g["p"], ok, show(p.ret))
    pc = cx.fn(D + "graph::Graph::push_context")
    for p in cx.run(pc, ["set_parent_for_client$", DESTR], opaque=opq("set_parent_for_client$|get_parents$")):
        sp = calls(p, "graph::Graph::set_parent_for_client$")
        ok = len(sp) == 1 and sp[0].args[1] is T("param", "client_id") and sp[0].args[2].op == "call" and sp[0].args[2].a[0].endswith("get_parents") and sp[0].args[2].a[2] is T("param", "context")
        cx.ob("all-dependencies-published", pc["p"], p.end != "ret" or ok and not calls(p, DESTR), desc(p))
    # the content of a value is read nowhere else than by the recording read
    k = 0
    for inst in [cr.inst(x) for x in sorted(cr.by_path)]:
        if "::tests::" in inst["p"] or not touches_content(cr, inst, ("get", "map", "take", "into_inner", "change", "move_to", "replace")):
            continue
        k += 1
        if inst["p"] == V + "value::Value::get":
            continue
        for p in cx.run(inst, ["Context::add_parent$", r"ValueMut::(get|map|take|into_inner|change|move_to|replace)$"], opaque=opq("add_parent$|ValueMut::"), branches=anyb):
            for e in calls(p, r"ValueMut::"):
                if e.args and ends_field(e.args[0], "value"):
                    rec = [x for x in calls(p, "add_parent$") if x.args[0].op == "param" and ends_field(x.args[1], "id")]
                    cx.ob("content-read-only-through-a-context", inst["p"], bool(rec), "the content is read without recording the dependency: " + desc(p))
    cx.floor("functions reading a value's content", k, 1)
    # a closure that is handed a context reads through that very context
    n = 0
    GET = re.compile(r"(computed::value::Value|computed_box::Computed|graph_value::GraphValue)::(get|get_value)$|[rR]eactive>?::get$")
    for inst in [cr.inst(x) for x in sorted(cr.by_path)]:
        if "{closure" not in inst["p"] or "::tests::" in inst["p"] or not inst["p"].lstrip("<").startswith("vertigo::"):
            continue
        cps = [k for k in range(1, inst["argc"] + 1) if "context::Context" in cr.ty(inst["locals"][k][0]) and "task::Context" not in cr.ty(inst["locals"][k][0])]
        if not cps:
            continue
        if not any(GET.search(t["f"].get("p") or "") for _, t in cr.calls(inst)):
            continue
        own = T("param", inst["locals"][cps[0]][1] if len(inst["locals"][cps[0]]) > 1 else f"arg{cps[0]}")
        for p in cx.run(inst, [GET.pattern], opaque=lambda q: bool(GET.search(q)), branches=anyb):
            for e in calls(p, GET.pattern):
                if e.loc[0] != inst["p"]:
                    continue
                n += 1
                cx.ob("reads-through-the-given-context", inst["p"], e.args[-1] is own, desc(p))
    cx.floor("context reads inside computations", n, 6)
    calc_rules(cx)


@check("R09")
def r09(cx):
    cr = cx.crate()
    for nm, dedupe in (("subscribe", True), ("subscribe_all", False)):
        f = cx.fn(V + "computed_box::Computed::" + nm)
        for p in cx.run(f, ["GraphValue::(new|get_value)$"], opaque=opq("GraphValue::(get_value|new)$"), branches=anyb):
            g, r = calls(p, "GraphValue::new$"), calls(p, "GraphValue::get_value$")
            ok = len(g) == 1 and is_false(g[0].args[0])
            cx.ob("subscription-is-a-client-node", f["p"], ok, desc(p))
            cx.ob("first-run-at-once", f["p"], len(r) == 1 and len(g) == 1 and r[0].args[0] is g[0].res, desc(p))
            cl = clos(g[0].args[1]) if g else []
            if not cl:
                cx.ob("subscription-body-found", f["p"], False, desc(p))
                continue
            c0 = cl[0] if g[0].args[1] is not cl[0] else g[0].args[1]
            c0 = g[0].args[1] if g[0].args[1].op == "clo" else cl[0]
            inst = cr.insts[c0.a[1]]
            c0 = T("clo", c0.a[0], c0.a[1], *[x if x.op == "param" else T("param", f"captured{k}") for k, x in enumerate(c0.a[2:])])
            n = ran = 0
            for q in cx.run(inst, ["dyn-call", "GraphValue::get_value$"], args=[havoc(c0)], opaque=opq("GraphValue::(get_value|new)$"), branches=anyb, stores=lambda a, v: True):
                n += 1
                dyn = [e for e in q.trace if e.kind == "dyn" and e.args[0] is T("param", "call")]
                rd = calls(q, "get_value$")
                cx.ob("reads-the-source-each-run", inst["p"], len(rd) == 1 and rd[0].args[0].has(T("param", "self")), desc(q))
                if not rd:
                    continue
                val = rd[0].res
                st = [e for e in q.trace if e.kind == "store"]
                eqs = [e for e in brs(q) if e.args[0].op == "bin" and e.args[0].a[0] in ("Eq", "Ne") and e.args[0].has(val)]
                same = any((e.args[0].a[0] == "Eq") == (e.args[1] == 1) for e in eqs)
                diff = any((e.args[0].a[0] == "Eq") == (e.args[1] == 0) for e in eqs)
                none = any(e.args[0].op == "discr" and e.args[1] == "None" for e in brs(q))
                if dyn:
                    ran += 1
                    cx.ob("callback-gets-the-new-value-once", inst["p"], len(dyn) == 1 and dyn[0].args[1] is val, desc(q))
                    kept = [e for e in st if dyn[0].res in e.args[1].subs()]
                    cx.ob("callback-result-kept-until-next-run", inst["p"], bool(kept), desc(q))
                    if dedupe:
                        cx.ob("callback-only-on-change", inst["p"], diff and not same or none, desc(q))
                else:
                    cx.ob("callback-skipped-only-when-equal", inst["p"], dedupe and same, desc(q))
                    cx.ob("kept-result-survives-a-skipped-run", inst["p"], all(agg_of(e.args[1], "Option", "Some") and e.args[1].a[3] is val for e in st), desc(q))
                if dedupe:
                    rem = [e for e in st if e.args[1].op == "agg" and e.args[1].a[1] == "Some" and e.args[1].a[3] is val]
                    late = [e for e in st if rem and e.args[0] is rem[-1].args[0] and q.trace.index(e) > q.trace.index(rem[-1])]
                    cx.ob("remembers-the-last-value", inst["p"], (bool(rem) or same) and not late, desc(q))
            cx.floor(nm + " body paths", n, 2 if dedupe else 1)
            cx.floor(nm + " callback paths", ran, 1)


@check("R11")
def r11(cx):
    only_counts_up(cx, via="vertigo::computed::auto_map::AutoMap::new")
    f = cx.fn(V + "auto_map::AutoMap::get")
    key = T("param", "key")
    hit = miss = 0
    for p in cx.run(f, ["dyn-call", "collections::HashMap::|collections::BTreeMap::"], branches=anyb):
        if p.end != "ret":
            continue
        dyn = [(i, e) for i, e in enumerate(p.trace) if e.kind == "dyn"]
        ins = [(i, e) for i, e in enumerate(p.trace) if e.kind == "call" and e.name.endswith("::insert")]
        look = [e for e in brs(p) if e.args[0].op == "discr" and e.args[0].has(key) and has_field(e.args[0], "values")]
        if any(e.args[1] == "Some" for e in look):
            hit += 1
            src = next(e.args[0].a[0] for e in look if e.args[1] == "Some")
            cx.ob("stored-value-returned-without-creating", f["p"], not dyn and not ins and p.ret is T("vf", src, "Some", "0"), desc(p))
        else:
            miss += 1
            ok = len(dyn) == 1 and ends_field(dyn[0][1].args[0], "create") and dyn[0][1].args[1] is T("param", "self") and dyn[0][1].args[2] is key
            cx.ob("missing-key-created-once", f["p"], ok and bool(look), desc(p))
            ok = ok and len(ins) == 1 and ins[0][1].args[1] is key and ins[0][1].args[2] is dyn[0][1].res and has_field(ins[0][1].args[0], "values")
            cx.ob("created-value-stored-and-returned", f["p"], ok and p.ret is dyn[0][1].res, desc(p))
    cx.floor("hits", hit, 1)
    cx.floor("misses", miss, 1)
    cr = cx.crate()
    n = 0
    for fn in cr.fns:
        if fn["p"].startswith(V + "auto_map::AutoMap::") and fn.get("i") is not None:
            for p in cx.run(cr.insts[fn["i"]], ["collections::.*Map.*::(remove|clear|retain|drain)$", "mem::(take|replace|swap)$"]):
                n += 1
                cx.ob("entries-never-evicted", fn["p"], not p.trace, desc(p))
    cx.floor("map functions", n, 2)
    for fn in cr.fns:
        if "auto_map::AutoMap as std::clone::Clone>::clone" in fn["p"] and fn.get("i") is not None:
            for p in cx.run(cr.insts[fn["i"]], []):
                ok = agg_of(p.ret, "AutoMap") and afields(p.ret).get("values") is T("f", T("param", "self"), "values")
                cx.ob("clones-share-the-cache", fn["p"], ok, show(p.ret))


CELL = re.compile(r"vertigo::computed::struct_mut::\w+::\w+::(\w+)$")


@check("R12")
def r12(cx):
    """closures run while a cell's content is borrowed must not run caller-supplied code"""
    cr = cx.crate()
    # which struct_mut functions call their closure argument at all
    hof = {}
    for fn in cr.fns:
        m = CELL.match(fn["p"])
        if m and fn.get("i") is not None:
            inst = cr.insts[fn["i"]]
            out = cr.ty(fn["out"])
            if fn.get("pub") is not False and "inner_value" not in fn["p"]:
                cx.ob("cells-hand-out-no-references", fn["p"], not out.startswith("&"), "returns " + out)
            tys = [cr.ty(inst["locals"][k][0]) for k in range(1, inst["argc"] + 1)]
            if any(re.match(r"std::ops::Fn(Once|Mut)?::call", t["f"].get("tp") or t["f"].get("p") or "") for _, t in cr.calls(inst)):
                hof[fn["p"]] = inst
    cx.floor("cell functions taking a closure", len(hof), 8)
    # user code reachable from an instance: dynamic Fn calls
    memo = {}

    def user_code(i, stack=()):
        if i in memo:
            return memo[i]
        if i in stack:
            return None
        inst = cr.insts[i]
        r = None
        for n, t in cr.calls(inst):
            f = t["f"]
            if is_user_call(cr, inst, t):
                r = (inst["p"], t.get("l"))
                break
        if r is None:
            for e in cr.edges(inst, True):
                r = user_code(e, stack + (i,))
                if r:
                    break
        if not stack or r:
            memo[i] = r
        return r
    n = 0
    for inst in list(cr.insts.values()):
        if "::tests::" in inst["p"] or not re.match(r"<?vertigo::(computed::(?!struct_mut)|driver_module::(event_emitter|api::callbacks)|fetch::lazy_cache)", inst["p"]):
            continue
        built = cr.closures_built(inst)
        for bb, t in cr.calls(inst):
            p = t["f"].get("p") or ""
            if p not in hof:
                continue
            n += 1
            ids = set()
            for a in t["a"]:
                if a[0] == "k" and a[1].get("fn", {}) and a[1]["fn"].get("i") is not None:
                    ids.add(a[1]["fn"]["i"])
                elif a[0] != "k":
                    l = a[1][0]
                    for b2, i, s in built:
                        if s[1][0] == l:
                            ids.add(i)
                    if cr.types[inst["locals"][l][0]]["k"] == "param":
                        cx.ob("caller-closure-not-run-under-borrow", inst["p"], CELL.match(inst["p"]) is not None, f"passes its own closure parameter to {p} at line {t.get('l')}")
            for i in ids:
                u = user_code(i)
                cx.ob("no-callback-under-borrow", inst["p"] + " -> " + p.rsplit("::", 2)[-2] + "::" + p.rsplit("::", 1)[-1], u is None, f"caller-supplied code runs at {u} while the cell is borrowed")
    cx.floor("closures run inside a cell", n, 10)


def is_user_call(cr, inst, t):
    f = t["f"]
    tp = f.get("tp") or f.get("p") or ""
    if re.match(r"(<.*> as )?std::ops::Fn(Once|Mut)?(>)?::call", tp) and f.get("i") is None and not CELL.match(inst["p"]):
        return True
    return False
