"""C08: arguments reach actions, predicates, matchers and the history unchanged."""
import copy
from . import shape as S

ROUNDS = 24   # each unit is run with that many different argument values
STYLE = {"v": ["T &", "const T &", "T"], "cv": ["const T &", "T"], "r": ["T &", "const T &", "T"], "cr": ["const T &", "T"], "rr": ["T &", "const T &", "T"]}


def styles(rng, p):
    t, mode = p
    if mode in ("p", "cp"):
        return rng.choice(["ptr", "ptrref"])
    s = rng.choice(STYLE[mode])
    if s == "T" and t in S.MOVEONLY:
        s = "const T &"
    return s


def gen(rng, quick):
    n = rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 12])
    params = []
    for _ in range(n):
        x = rng.random()
        if x < .5:
            params.append((rng.choice(S.COPYABLE), rng.choice(["v", "v", "v", "cv"])))
        elif x < .58:
            params.append((rng.choice(S.MOVEONLY), "v"))
        else:
            params.append((rng.choice(S.COPYABLE), rng.choice(["r", "cr", "rr", "p", "cp"])))
    m = {"name": "f", "ret": S.gen_ret(rng), "params": params, "qual": rng.choice(["", "", "", "const", "&", "&&", "volatile", "const &"]),
         "pure": True, "noexc": False, "lvl": 0, "over": False, "by": []}
    calls = []
    for c in range(rng.randint(1, 3)):
        calls.append({"seed": rng.randrange(30), "seed2": rng.randrange(30), "same": c > 0 and rng.random() < .3,
                      "write": {str(k): rng.randrange(30) for k, (t, md) in enumerate(params) if md in ("r", "rr", "p") and rng.random() < .5}})
    if rng.random() < .5:
        anys = [False] * n
    else:
        anys = [rng.random() < .3 for _ in params]
    return {"m": m, "mode": rng.choice(["always", "pred", "using", "using", "call"]), "styles": [styles(rng, p) for p in params], "calls": calls,
            "pstyles": [styles(rng, p) for p in params], "pre": rng.randrange(3), "any": anys,
            "mutate": rng.random() < .7}


def sweep(rng):
    """every type in every mode"""
    us = []
    for t in S.COPYABLE:
        u = gen(rng, True)
        params = [S.narrow((t, md)) for md in ("v", "cv", "r", "cr", "rr", "p", "cp")]
        u["m"]["params"] = params
        u["m"]["qual"] = ""
        u["mode"] = rng.choice(["always", "using", "call"])
        u["styles"] = [styles(rng, p) for p in params]
        u["pstyles"] = [styles(rng, p) for p in params]
        u["any"] = [False] * len(params)
        for c in u["calls"]:
            c["write"] = {str(k): rng.randrange(30) for k, (_, md) in enumerate(params) if md in ("r", "rr", "p") and rng.random() < .5}
        us.append(u)
    return us


def dcl(p, style, k):
    """parameter of a lambda"""
    t, mode = p
    tt = t if not t.endswith("*") else t + " "
    c = ("const " + t) if not t.endswith("*") else t + " const"
    if mode == "p":
        return "%s *%s x%d" % (tt, "&" if style == "ptrref" else "", k)
    if mode == "cp":
        return "%s *%s x%d" % (c, "&" if style == "ptrref" else "", k)
    if style == "T":
        return "%s x%d" % (tt, k)
    if style == "T &":
        return "%s &x%d" % (tt, k)
    return "%s &x%d" % (c, k)


def byref(p, style):
    return p[1] in ("p", "cp") or (p[1] in ("r", "cr", "rr") and style != "T")


def seen(u, st):
    """expression appending what a lambda sees"""
    out = []
    for k, (p, s) in enumerate(zip(u["m"]["params"], st)):
        if p[1] in ("p", "cp"):
            out.append('seen += show(*x%d) + "@" + addr(x%d) + "|";' % (k, k))
        elif byref(p, s):
            out.append('seen += show(x%d) + "@" + addr(&x%d) + "|";' % (k, k))
        else:
            out.append('seen += show(x%d) + "|";' % k)
    return " ".join(out)


def expect(u, st, c):
    out = ['std::string()']
    for k, (p, s) in enumerate(zip(u["m"]["params"], st)):
        if byref(p, s):
            out.append('show(a%d_%d) + "@" + addr(&a%d_%d) + "|"' % (c, k, c, k))
        else:
            out.append('show(%s%d_%d) + "|"' % ("o" if p[1] in ("v", "cv") else "a", c, k))
    return " + ".join(out)


def key(u, c, after):
    """identity of call c for value matchers, as a run-time string"""
    out = ['std::string()']
    for k, p in enumerate(u["m"]["params"]):
        if wild(u, k):
            continue
        if p[1] in ("p", "cp"):
            out.append("addr(&a%d_%d)" % (c, k))
        elif p[1] in ("v", "cv"):
            out.append('(ident(o%d_%d) + "|")' % (c, k))
        else:
            out.append('(ident(a%d_%d) + "|")' % (c, k))
    return " + ".join(out)


def wild(u, k):
    return u["m"]["params"][k][0] in S.MOVEONLY and u["m"]["params"][k][1] in ("v", "cv") or u["any"][k]


def matchers(u, c, call):
    out = []
    for k, p in enumerate(u["m"]["params"]):
        if wild(u, k):
            out.append("_")
        elif p[1] in ("p", "cp"):
            out.append("&a%d_%d" % (c, k) if (k + c) % 2 or call else "Eq(&a%d_%d)" % (c, k))
        else:
            v = ("o%d_%d" if p[1] in ("v", "cv") else "a%d_%d") % (c, k)
            out.append(v if (k + c) % 2 or call else "Eq(%s)" % v)
    return ", ".join(out)


def code(u):
    m, calls = u["m"], u["calls"]
    P = m["params"]
    R = S.rtype(m["ret"])
    out = ["struct C {"]
    out += ["    virtual int pre%d() = 0;" % i for i in range(u["pre"])]
    out.append("    " + S.decl(m, " = 0;"))
    out += ["    virtual ~C() {}", "};", "void one(int r) {", "    Listening l;", "    std::string seen;"]
    # variables: a = the caller's variable, o = a copy of the original value
    for c, call in enumerate(calls):
        for k, (t, md) in enumerate(P):
            n = (calls[0]["seed"] if call["same"] else call["seed"]) + 3 * k
            if call["same"] and md not in ("p", "cp") and t not in S.MOVEONLY:
                out.append("    auto a%d_%d = a0_%d;" % (c, k, k))
            else:
                out.append("    auto a%d_%d = make<%s>(%d + r);" % (c, k, t, n))
            if t in S.MOVEONLY:
                out.append("    auto o%d_%d = make<%s>(%d + r);" % (c, k, t, n))
            else:
                out.append("    auto o%d_%d = a%d_%d;" % (c, k, c, k))
    out.append("    Mock<C> mock;")
    ref = S.ref_text(m)
    st, ps = u["styles"], u["pstyles"]

    def action(c):
        w = ""
        if c is not None:
            for k, n in calls[c]["write"].items():
                k = int(k)
                if st[k] in ("T &",):
                    w += " x%d = make<%s>(%d + r);" % (k, P[k][0], n)
                elif P[k][1] == "p":
                    w += " *x%d = make<%s>(%d + r);" % (k, P[k][0], n)
        return "[&](%s) -> %s {%s%s return Answer<%s>(%d)(); }" % (", ".join(dcl(p, s, k) for k, (p, s) in enumerate(zip(P, st))), R, " " + seen(u, st), w, R, 7 if c is None else 100 + c)

    def written(c):
        r = []
        for k, n in calls[c]["write"].items():
            if st[int(k)] == "T &" or P[int(k)][1] == "p":
                r.append((int(k), n))
        return r

    def invoke(c, what, want_id):
        e = []
        for k, (t, md) in enumerate(P):
            v = "a%d_%d" % (c, k)
            e.append("&" + v if md in ("p", "cp") else "std::move(%s)" % v if md == "rr" or t in S.MOVEONLY and md == "v" else v)
        call = "%s.f(%s)" % (S.receiver(m, "C", "mock.get()"), ", ".join(e))
        out.append('    eq("result of call %d (%s)", outcome([&] { return Result<%s>::of([&]() -> %s { return %s; }); }), Result<%s>::want(%s));' % (c, what, R, R, call, R, want_id))
        out.append('    eq("who answered call %d (%s)", str(lastId()), str(%s));' % (c, what, want_id))

    mode = u["mode"]
    if mode == "call" and any(wild(u, k) for k in range(len(P))):   # that form takes values only
        mode = "using"
    if mode in ("always", "pred"):
        for c in range(len(calls)):
            if mode == "pred":
                out.append("    std::string pseen%d;" % c)
                pl = "[&](%s) -> bool { std::string &seen = pseen%d; seen.clear(); %s return true; }" % (", ".join(dcl(p, s, k) for k, (p, s) in enumerate(zip(P, ps))), c, seen(u, ps))
                out.append("    When(%s.Matching(%s)).Do(%s);" % (ref, pl, action(c)))
            else:
                out.append("    When(%s).Do(%s);" % (ref, action(c)))
            out.append("    { std::string want = %s, pwant = %s; seen.clear();" % (expect(u, st, c), expect(u, ps, c)))
            invoke(c, mode, 100 + c)
            out.append('    eq("what the action of call %d saw", seen, want);' % c)
            if mode == "pred":
                out.append('    eq("what the predicate of call %d saw", pseen%d, pwant);' % (c, c))
            out.append("    }")
    else:
        # every call has its own stubbing, selected by its argument values; the newest matching one answers
        for c in range(len(calls)):
            if mode == "call":
                out.append("    When(%s(%s)).AlwaysDo(%s);" % (ref, matchers(u, c, True), action(None).replace("(7)()", "(%d)()" % (100 + c))))
            else:
                out.append("    When(%s.Using(%s)).AlwaysDo(%s);" % (ref, matchers(u, c, False), action(None).replace("(7)()", "(%d)()" % (100 + c))))
        out.append("    std::vector<std::string> keys = {%s};" % ", ".join(key(u, c, False) for c in range(len(calls))))
        for c in range(len(calls)):
            out.append("    { std::string want = %s; seen.clear(); int id = 0; for (int i = 0; i < %d; i++) if (keys[(size_t) i] == keys[%d]) id = 100 + i;" % (expect(u, st, c), len(calls), c))
            invoke(c, mode, "id")
            out.append('    eq("what the action of call %d saw", seen, want); }' % c)
    # writes through references and pointers reached the caller; nothing else changed
    for c in range(len(calls)):
        wr = dict(written(c)) if mode in ("always", "pred") else {}
        for k, (t, md) in enumerate(P):
            if t in S.MOVEONLY and md in ("v", "cv"):
                continue
            if k in wr:
                out.append('    eq("argument %d of call %d after the call", show(a%d_%d), %s);' % (k, c, c, k, "show(make<%s>(%d + r))" % (t, wr[k])))
            else:
                out.append('    eq("argument %d of call %d after the call", show(a%d_%d), show(o%d_%d));' % (k, c, c, k, c, k))
    if u["mutate"]:
        for c, call in enumerate(calls):
            for k, (t, md) in enumerate(P):
                if t not in S.MOVEONLY:
                    out.append("    a%d_%d = make<%s>(%d + 3 * r);" % (c, k, t, call["seed2"] + k))
    # history
    out.append("    std::vector<std::string> now = {%s};" % ", ".join(key(u, c, True) for c in range(len(calls))))
    for c in range(len(calls)):
        out.append('    { int n = 0; for (auto &x : now) if (x == now[%d]) n++;' % c)
        out.append('      ok("call %d is in the history with its arguments", Verify(%s.Using(%s)).Exactly(n)); }' % (c, ref, matchers(u, c, False)))
        out.append("      { std::vector<std::string> all = {%s}; std::string want = all[%d]; int n = 0; for (auto &x : all) if (x == want) n++;" % (", ".join(expect(u, ps, i) for i in range(len(calls))), c))
        pl = "[&](%s) -> bool { std::string seen; %s return seen == want; }" % (", ".join(dcl(p, s, k) for k, (p, s) in enumerate(zip(P, ps))), seen(u, ps))
        out.append('      ok("predicate sees call %d in the history", Verify(%s.Matching(%s)).Exactly(n)); }' % (c, ref, pl))
    out.append("}")
    out.append("void run() { for (int r = 0; r < %d; r++) one(r); }" % ROUNDS)
    return "\n".join(out)


def nontrivial(u):
    return len(u["m"]["params"]) >= 2 and len(set(u["m"]["params"])) >= 2 if isinstance(u["m"]["params"][0], tuple) else len(u["m"]["params"]) >= 2


def labels(u):
    r = ["mode " + u["mode"], "arity %s" % ("1" if len(u["m"]["params"]) == 1 else "2-4" if len(u["m"]["params"]) <= 4 else "5-12")]
    return r + sorted(set("passing " + p[1] for p in u["m"]["params"]))


def reductions(u):
    for c in range(len(u["calls"])):
        if len(u["calls"]) > 1:
            v = copy.deepcopy(u)
            del v["calls"][c]
            v["calls"][0]["same"] = False
            yield v
    for k in range(len(u["m"]["params"])):
        if len(u["m"]["params"]) > 1:
            v = copy.deepcopy(u)
            del v["m"]["params"][k], v["styles"][k], v["pstyles"][k], v["any"][k]
            for call in v["calls"]:
                call["write"] = {str(int(j) - (int(j) > k)): n for j, n in call["write"].items() if int(j) != k}
            yield v
    if u["m"]["ret"] != "void":
        v = copy.deepcopy(u)
        v["m"]["ret"] = "void"
        yield v
    if u["pre"]:
        yield dict(u, pre=0)
    if u["m"]["qual"]:
        v = copy.deepcopy(u)
        v["m"]["qual"] = ""
        yield v
