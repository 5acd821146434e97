"""C09: the caller receives exactly the stubbed result."""
import copy
from . import shape as S

ROUNDS = 24


def gen_value(rng):
    return {"n": rng.randrange(40), "as": rng.choice(["var", "const", "temp", "temp"])}


def gen_exc(rng):
    return {"n": rng.randrange(40), "t": rng.choice(["Boom", "int", "str", "Err"])}


def gen_step(rng, ret):
    kind = "void" if ret == "void" else "ref" if ret[1] in ("r", "cr") else "move" if ret[0] in S.MOVEONLY else "val"
    opts = {"void": ["dflt", "retq"], "ref": ["ret", "ret", "dflt"], "move": ["ret", "ret"], "val": ["ret", "ret", "ret", "retlist", "retq", "dflt"]}[kind]
    k = rng.choice(opts + ["throw", "throwlist", "throwq", "do", "do", "dolist", "doq", "dothrow"])
    if k == "dflt" and kind == "ref" and ret[0] == "ND":
        k = "ret"     # no object to refer to
    if k == "retq" and ret != "void" and ret[1] == "cv":
        k = "retlist"
    s = {"k": k}
    if k in ("ret", "retlist", "retq"):
        s["v"] = [gen_value(rng) for _ in range({"ret": 1, "retlist": rng.randint(2, 4), "retq": 1}[k])]
    if k in ("throw", "throwlist", "throwq", "dothrow"):
        s["e"] = [gen_exc(rng) for _ in range({"throwlist": rng.randint(2, 3)}.get(k, 1))]
    if k in ("do", "dolist", "doq"):
        s["d"] = [{"n": rng.randrange(40), "as": rng.choice(["functor", "lambda", "stdfunction", "pointer", "state"])} for _ in range(rng.randint(2, 3) if k == "dolist" else 1)]
    if k.endswith("q"):
        s["times"] = rng.randint(1, 3)
    return s


def gen(rng, quick):
    ret = S.gen_ret(rng)
    if rng.random() < .4:
        ret = (rng.choice(S.COPYABLE), rng.choice(["v", "v", "v", "r", "cr", "cv"]))
    m = {"name": "f", "ret": ret, "params": [S.gen_param(rng) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))],
         "qual": rng.choice(["", "", "", "const", "&", "&&"]), "pure": True, "noexc": False, "lvl": 0, "over": False, "by": []}
    sts = []
    for _ in range(rng.randint(1, 2)):
        form = rng.choice(["when", "when", "when", "when", "fake", "assign", "assignv"])
        if form == "fake" and (ret != "void" and (ret[0] in S.MOVEONLY or ret[0] == "ND" and ret[1] != "v")):
            form = "when"
        if form == "assignv" and (ret == "void" or ret[0] in S.MOVEONLY):
            form = "assign"
        st = {"form": form, "steps": [gen_step(rng, ret) for _ in range(rng.randint(1, 4))] if form == "when" else [],
              "last": rng.choice([None, "ret", "dflt", "throw", "do"]) if form == "when" else None, "extra": rng.randint(0, 2),
              "v": gen_value(rng), "e": gen_exc(rng), "d": {"n": rng.randrange(40), "as": rng.choice(["functor", "lambda", "stdfunction", "pointer", "state"])}}
        if st["last"] == "ret" and (ret == "void" or ret[0] in S.MOVEONLY):
            st["last"] = "do"
        if st["last"] == "dflt" and ret != "void" and (ret[0] in S.MOVEONLY or ret[0] == "ND" and ret[1] != "v"):
            st["last"] = "do"
        if form == "assign" and st["d"]["as"] in ("pointer", "lambda") and ret != "void" and ret[0] == "bool":
            st["d"]["as"] = "stdfunction"   # a function pointer is also a bool: the language prefers the value
        sts.append(st)
    return {"m": m, "stmts": sts}


def sweep(rng):
    """every type: its default, by value and by reference, with Fake and in a script"""
    us = []
    for t in S.COPYABLE:
        for mode in ("v", "r", "cr"):
            u = gen(rng, True)
            u["m"] = {"name": "f", "ret": (t, mode), "params": [], "qual": "", "pure": True, "noexc": False, "lvl": 0, "over": False, "by": []}
            st = {"form": "fake", "steps": [], "last": None, "extra": 1, "v": gen_value(rng), "e": gen_exc(rng), "d": {"n": 3, "as": "functor"}}
            if t == "ND" and mode != "v":
                st.update(form="assign")
            u["stmts"] = [st]
            if t != "ND":
                u["stmts"].append(dict(st, form="when", steps=[{"k": "dflt"}, {"k": "ret", "v": [gen_value(rng)]}, {"k": "dflt"}], last="dflt"))
            us.append(u)
    return us


def code(u):
    m = u["m"]
    ret = m["ret"]
    R = S.rtype(ret)
    ref = S.ref_text(m)
    T = None if ret == "void" else ret[0]
    isref = ret != "void" and ret[1] in ("r", "cr")
    out = ["struct C {", "    " + S.decl(m, " = 0;"), "    virtual ~C() {}", "};"]
    body = []
    head = []
    cnt = [0]
    ptrs = []

    def fresh(p):
        cnt[0] += 1
        return "%s%d" % (p, cnt[0])

    late = []   # statements run after the stubbing: spoil the variables that were given

    def value(v):
        """(expression, expected text)"""
        want = "Result<%s>::want(%d + r)" % (R, v["n"])
        if isref:
            return "cell<%s>(%d + r)" % (T, v["n"]), want
        mk = "make<%s>(%d + r)" % (T, v["n"])
        if T in S.MOVEONLY:
            if v["as"] == "temp":
                return mk, want
            x = fresh("v")
            body.append("    auto %s = %s;" % (x, mk))
            return "std::move(%s)" % x, want
        x = fresh("v")
        # what was given, also for types whose equal values are distinguishable only by identity
        if v["as"] == "temp":
            return mk, want
        if v["as"] == "const":
            body.append("    const auto %s = %s;" % (x, mk))
            return x, want
        body.append("    auto *%s = new %s(%s);" % (x, T, mk))
        late.append("    *%s = make<%s>(%d + 5 * r); delete %s;" % (x, T, v["n"] + 1, x))
        return "*" + x, want

    def exc(e):
        t = e["t"]
        ex = {"Boom": "Boom(%d + r)", "int": "(%d + r)", "str": "make<std::string>(%d + r)", "Err": "Err(%d + r)"}[t] % e["n"]
        return ex, {"Boom": '"Boom " + str(%d + r)', "int": '"int " + str(%d + r)', "str": '"string " + make<std::string>(%d + r)', "Err": '"Err " + str(%d + r)'}[t] % e["n"]

    params = ", ".join("%s" % S.ptype((t, "r" if md in ("v", "rr") else "cr" if md == "cv" else md)) for t, md in m["params"])

    def callable_(d):
        """(expression, function from call number to expected text)"""
        n = d["n"]
        w = lambda i: "Result<%s>::want(%d + r)" % (R, n)
        if d["as"] == "functor":
            return "Answer<%s>(%d + r)" % (R, n), w
        if d["as"] == "lambda":
            return "[r](%s) -> %s { return Answer<%s>(%d + r)(); }" % (params, R, R, n), w
        if d["as"] == "stdfunction":
            return "std::function<%s(%s)>([r](%s) -> %s { return Answer<%s>(%d + r)(); })" % (R, params, params, R, R, n), w
        if d["as"] == "pointer":
            f = fresh("fn")
            ptrs.append("static %s %s(%s) { return Answer<%s>(%d)(); }" % (R, f, params, R, n))
            return "&" + f, lambda i: "Result<%s>::want(%d)" % (R, n)
        x = fresh("k")
        return "[r, %s](%s) mutable -> %s { return Answer<%s>(%d + r + %s++)(); }" % ("k", params, R, R, n, "k"), lambda i: "Result<%s>::want(%d + r + %d)" % (R, n, i)

    def dflt():
        if ret == "void":
            return '"void"'
        if T == "ND" and not isref:
            return '"no default"'
        return "Result<%s>::zero()" % R

    for s_i, st in enumerate(u["stmts"]):
        wants = []
        del late[:]
        body.append("    int k%d = 0; { int k = 0; (void) k;" % s_i)
        if st["form"] == "fake":
            body.append("    Fake(%s);" % ref)
            wants = [dflt()] * (1 + st["extra"])
            tail = None
        elif st["form"] == "assignv":
            e, w = value(st["v"])
            body.append("    %s = %s;" % (ref, e))
            wants = [w] * (1 + st["extra"])
        elif st["form"] == "assign":
            e, w = callable_(st["d"])
            body.append("    %s = %s;" % (ref, e))
            wants = [w(i) for i in range(1 + st["extra"])]
        else:
            chain = ""
            for s in st["steps"]:
                k = s["k"]
                if k in ("ret", "retlist"):
                    vs = [value(v) for v in s["v"]]
                    chain += ".Return(%s)" % ", ".join(e for e, _ in vs)
                    wants += [w for _, w in vs]
                elif k == "retq":
                    if ret == "void":
                        chain += ".Return(%d_Times)" % s["times"]
                        wants += ['"void"'] * s["times"]
                    else:
                        e, w = value(s["v"][0])
                        chain += ".Return(%d_Times(%s))" % (s["times"], e)
                        wants += [w] * s["times"]
                elif k == "dflt":
                    chain += ".Return()"
                    wants.append(dflt())
                elif k in ("throw", "throwlist"):
                    es = [exc(e) for e in s["e"]]
                    chain += ".Throw(%s)" % ", ".join(e for e, _ in es)
                    wants += [w for _, w in es]
                elif k == "throwq":
                    e, w = exc(s["e"][0])
                    chain += ".Throw(%d_Times(%s))" % (s["times"], e)
                    wants += [w] * s["times"]
                elif k == "dothrow":
                    e, w = exc(s["e"][0])
                    chain += ".Do([r](%s) -> %s { throw %s; })" % (params, R, e)
                    wants.append(w)
                elif k in ("do", "dolist"):
                    ds = [callable_(d) for d in s["d"]]
                    chain += ".Do(%s)" % ", ".join(e for e, _ in ds)
                    wants += [w(0) for _, w in ds]
                elif k == "doq":
                    e, w = callable_(s["d"][0])
                    chain += ".Do(%d_Times(%s))" % (s["times"], "std::function<%s(%s)>(%s)" % (R, params, e))
                    wants += [w(i) for i in range(s["times"])]
            n = 1 + st["extra"]
            if st["last"] == "ret":
                e, w = value(st["v"])
                chain += ".AlwaysReturn(%s)" % e
                wants += [w] * n
            elif st["last"] == "dflt":
                chain += ".AlwaysReturn()"
                wants += [dflt()] * n
            elif st["last"] == "throw":
                e, w = exc(st["e"])
                chain += ".AlwaysThrow(%s)" % e
                wants += [w] * n
            elif st["last"] == "do":
                e, w = callable_(st["d"])
                chain += ".AlwaysDo(%s)" % e
                wants += [w(i) for i in range(n)]
            else:
                wants += ["AFTER"] * st["extra"]
            body.append("    When(%s)%s;" % (ref, chain))
        body.extend(late)
        for i, w in enumerate(wants):
            d, e = S.arg_decls(m, i)
            call = "%s.f(%s)" % (S.receiver(m, "C", "mock.get()"), ", ".join(e))
            head_ = "    { %s" % " ".join(x.replace("auto a", "static auto a", 1) for x in d)
            want = w
            if w == "AFTER":
                want = '"unexpected"'   # exhausted: an older statement does not take over
            body.append('%s eq("statement %d, call %d", outcome09([&] { return Result<%s>::%s([&]() -> %s { return %s; }); }), %s); }' % (head_, s_i, i, R, "plain" if "zero()" in want else "of", R, call, want))
        body.append("    }")
    out += ptrs
    out += ["void one(int r) {", "    Mock<C> mock;"] + body + ["}", "void run() { for (int r = 0; r < %d; r++) one(r); }" % ROUNDS]
    return "\n".join(out)


def nontrivial(u):
    return u["m"]["ret"] != "void" and sum(len(s["steps"]) + 1 for s in u["stmts"]) >= 2


def labels(u):
    ret = u["m"]["ret"]
    r = ["void" if ret == "void" else "reference" if ret[1] in ("r", "cr") else "move-only" if ret[0] in S.MOVEONLY else "scalar or pointer" if ret[0] in S.SCALARS + S.POINTERS else "object"]
    for s in u["stmts"]:
        r += [s["form"]] if s["form"] != "when" else [x["k"] for x in s["steps"]]
    return sorted(set(r))


def reductions(u):
    for i in range(len(u["stmts"])):
        if len(u["stmts"]) > 1:
            v = copy.deepcopy(u)
            del v["stmts"][i]
            yield v
    for i, s in enumerate(u["stmts"]):
        for j in range(len(s["steps"])):
            if len(s["steps"]) > 1 or s["last"]:
                v = copy.deepcopy(u)
                del v["stmts"][i]["steps"][j]
                yield v
        if s["last"] and s["steps"]:
            v = copy.deepcopy(u)
            v["stmts"][i]["last"] = None
            yield v
        if s["extra"]:
            v = copy.deepcopy(u)
            v["stmts"][i]["extra"] = 0
            yield v
    for k in range(len(u["m"]["params"])):
        v = copy.deepcopy(u)
        del v["m"]["params"][k]
        yield v
    if u["m"]["qual"]:
        v = copy.deepcopy(u)
        v["m"]["qual"] = ""
        yield v
