"""C17: destructor mocking."""
import copy
from . import shape as S


def gen(rng, quick):
    ch = S.gen_chain(rng, max_methods=5, dtor=rng.random() < .93)
    S.gen_style(rng, ch, local=False, nv=False, pure=False)
    top = len(ch["classes"]) - 1
    spied = rng.random() < .3
    if ch["dtor_lvl"] < 0:
        lvl = top
        if not S.visible(ch, lvl):
            return gen(rng, quick)
        return {"chain": ch, "lvl": lvl, "ops": [["none", rng.choice(["when", "fake", "assign", "verify"])]], "spied": False}
    lvl = rng.randint(ch["dtor_lvl"], top)
    named = [i for i in S.visible(ch, lvl) if S.nameable(ch, i, lvl) and not ch["methods"][i]["noexc"]]
    ops = []
    left = 0 if not spied else None   # None: no deletion allowed (spied and destructor untouched); -1: any number
    left = None if spied else -1
    hist = False
    nid = 1
    for _ in range(rng.randint(3, 16)):
        k = rng.choice(["stub", "stub", "delete", "delete", "delete", "mstub", "call", "verify", "reset", "clear"])
        if k == "stub":
            form = rng.choice(["do", "ret", "always", "alwaysret", "fake", "assign", "mixed"] + (["spy"] if spied else []))
            n = rng.randint(1, 3)
            ops.append(["stub", form, n, nid])
            nid += 4
            left = {"do": n, "ret": n}.get(form, -1)
            hist = True
        elif k == "delete":
            if left is None or left == 0:
                continue
            cnt = rng.choice([1, 1, 2])
            if left > 0:
                cnt = min(cnt, left)
                left -= cnt
            for _ in range(cnt):
                ops.append(["delete", rng.choice(["delete", "unique", "shared", "explicit"]), rng.randint(ch["dtor_lvl"], lvl)])
        elif k == "mstub" and named:
            ops.append(["mstub", rng.choice(named), nid])
            nid += 1
        elif k == "call" and named:
            i = rng.choice(named)
            ops.append(["call", i, rng.randint(ch["methods"][i]["lvl"], lvl), rng.randrange(40)])
        elif k == "reset" and rng.random() < .4:
            ops.append(["reset"])
            left = None if spied else -1
            hist = False
        elif k == "clear" and rng.random() < .4:
            ops.append(["clear"])
        elif k == "verify" and hist:
            ops.append(["verify"])
    if hist:
        ops.append(["verify"])
    return {"chain": ch, "lvl": lvl, "ops": ops, "spied": spied}


def ctor_args(ch, lvl):
    return "(1, 2)" if ch["classes"][lvl]["noctor"] else "()"


def code(u):
    ch, lvl = u["chain"], u["lvl"]
    C = S.cname(lvl)
    out = [S.chain_text(ch, final_bodies=u["spied"])]
    out.append("void one() {\n    Listening l;\n    dtors() = 0;\n    std::string log;")
    if u["spied"]:
        out.append("    %s *real = new %s%s;" % (C, C, ctor_args(ch, lvl)))
        out.append("    { Mock<%s> mock(*real);" % C)
    else:
        out.append("    { Mock<%s> mock;" % C)
    script, always, total = [], None, 0    # pending actions of the destructor; calls since the last clear
    bound = False
    cur = {}
    order = []
    for k, op in enumerate(u["ops"]):
        w = "op %d" % k
        if op[0] == "none":
            st = {"when": "When(Dtor(mock)).Return();", "fake": "Fake(Dtor(mock));", "assign": "Dtor(mock) = [] {};", "verify": "(bool) Verify(Dtor(mock)).Never();"}[op[1]]
            out.append('    std::string got = "nothing"; try { %s } catch (const std::runtime_error &e) { got = e.what(); }' % st)
            out.append('    ok("%s: no virtual destructor, got " + got, got.find("destructor") != std::string::npos);' % w)
        elif op[0] == "stub":
            _, form, n, nid = op
            acts = ["[&] { log += \"%d;\"; }" % (nid + j) for j in range(n)]
            script, always = [], None
            if form == "do":
                out.append("    When(Dtor(mock))%s;" % "".join(".Do(%s)" % a for a in acts))
                script = ["%d;" % (nid + j) for j in range(n)]
            elif form == "ret":
                out.append("    When(Dtor(mock)).Return(%d_Times);" % n)
                script = [""] * n
            elif form == "always":
                out.append("    When(Dtor(mock)).AlwaysDo(%s);" % acts[0])
                always = "%d;" % nid
            elif form == "alwaysret":
                out.append("    When(Dtor(mock)).AlwaysReturn();")
                always = ""
            elif form == "fake":
                out.append("    Fake(Dtor(mock));")
                always = ""
            elif form == "spy":
                out.append("    Spy(Dtor(mock));")
                always = ""
            elif form == "assign":
                out.append("    Dtor(mock) = %s;" % acts[0])
                always = "%d;" % nid
            else:
                out.append("    When(Dtor(mock))%s.Return().AlwaysDo(%s);" % ("".join(".Do(%s)" % a for a in acts[1:]), acts[0]))
                script = ["%d;" % (nid + j) for j in range(1, n)] + [""]
                always = "%d;" % nid
            bound = True
        elif op[0] == "delete":
            _, how, cls = op
            B = S.cname(cls)
            p = "static_cast<%s *>(&mock.get())" % B
            st = {"delete": "delete %s;" % p, "unique": "{ std::unique_ptr<%s> q(%s); }" % (B, p), "shared": "{ std::shared_ptr<%s> q(%s); auto q2 = q; q.reset(); }" % (B, p),
                  "explicit": "(%s)->~%s();" % (p, B)}[how]
            want = ""
            if bound:
                want = script.pop(0) if script else always
                total += 1
                order.append("d")
            out.append('    log.clear(); %s eq("%s: effect of destroying through %s", log, "%s"); eq("%s: events", l.e.take(), "");' % (st, w, B, want, w))
            out.append('    eq("%s: real destructors", str(dtors()), "0");' % w)
        elif op[0] == "mstub":
            m = ch["methods"][op[1]]
            out.append("    When(%s).AlwaysDo(Answer<%s>(%d));" % (S.ref_text(m), S.rtype(m["ret"]), op[2]))
            cur[op[1]] = op[2]
        elif op[0] == "call":
            m = ch["methods"][op[1]]
            R = S.rtype(m["ret"])
            if op[1] not in cur and u["spied"]:
                continue
            d, e = S.arg_decls(m, op[3])
            call = "%s.%s(%s)" % (S.receiver(m, S.cname(op[2]), "mock.get()"), m["name"], ", ".join(e))
            want = "Result<%s>::want(%d)" % (R, cur[op[1]]) if op[1] in cur else '"unexpected"'
            out.append('    { %s eq("%s: call of %s", outcome([&] { return Result<%s>::of([&]() -> %s { return %s; }); }), %s); eq("%s: events", l.e.take(), "%s"); }'
                       % (" ".join(x.replace("auto a", "static auto a", 1) for x in d), w, m["name"], R, R, call, want, w, "" if op[1] in cur else "unmocked unknown();"))
            if op[1] in cur:
                order.append(op[1])
        elif op[0] == "verify":
            out.append('    ok("%s: number of destructions", Verify(Dtor(mock)).Exactly(%d));' % (w, total))
            out.append('    ok("%s: one less does not match", !(bool) Verify(Dtor(mock)).Exactly(%d)); l.e.take();' % (w, total + 1))
            for x, y in zip(order, order[1:]):
                if x != y and "d" in (x, y):
                    f = lambda z: "Dtor(mock)" if z == "d" else S.ref_text(ch["methods"][z])
                    out.append('    ok("%s: order", Verify(%s + %s).AtLeastOnce());' % (w, f(x), f(y)))
                    break
        elif op[0] == "reset":
            out.append("    mock.Reset();")
            script, always, total, bound, cur, order = [], None, 0, False, {}, []
        elif op[0] == "clear":
            out.append("    mock.ClearInvocationHistory();")
            total, order = 0, []
    out.append('    }\n    eq("real destructors while mocked", str(dtors()), "0");')
    if u["spied"]:
        w = "+".join(["100" if ch["classes"][i]["redecl"] else str(i + 1) if i == ch["dtor_lvl"] else "0" for i in range(lvl + 1)])
        out.append('    delete real;\n    eq("real destructors at the end", str(dtors()), str(%s));' % w)
    out.append("}\nvoid run() { one(); one(); }")
    return "\n".join(out)


def nontrivial(u):
    return any(o[0] == "stub" for o in u["ops"]) and sum(o[0] == "delete" for o in u["ops"]) >= 1 or u["ops"] and u["ops"][0][0] == "none"


def labels(u):
    r = ["spied object" if u["spied"] else "mock"] + ["destroyed by " + o[1] for o in u["ops"] if o[0] == "delete"] + ["stub " + o[1] for o in u["ops"] if o[0] == "stub"]
    if u["ops"] and u["ops"][0][0] == "none":
        r.append("no virtual destructor")
    return sorted(set(r))


def reductions(u):
    n = len(u["ops"])
    for i in range(n):
        if u["ops"][i][0] in ("stub", "reset"):
            continue   # would change which deletions are allowed
        v = copy.deepcopy(u)
        del v["ops"][i]
        yield v
    # cut off the tail
    for i in range(1, n):
        yield dict(copy.deepcopy(u), ops=copy.deepcopy(u["ops"][:i]))
