"""C11, signatures: forwarding of a spied method with any signature."""
import copy
from . import shape as S
from .c08 import dcl

ROUNDS = 12


def gen(rng, quick):
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, 6, 9])
    params = []
    for _ in range(n):
        x = rng.random()
        if x < .5:
            params.append((rng.choice(S.COPYABLE), rng.choice(["v", "v", "v", "cv"])))
        elif x < .6:
            params.append((rng.choice(S.MOVEONLY), "v"))
        else:
            params.append(S.narrow((rng.choice(S.COPYABLE), rng.choice(["r", "cr", "rr", "p", "cp"]))))
    m = {"name": "f", "ret": S.gen_ret(rng), "params": params, "qual": rng.choice(["", "", "", "const", "&", "&&", "volatile", "const &"]),
         "pure": False, "noexc": False, "lvl": 0, "over": False, "by": []}
    plain = all(md != "rr" and t not in S.MOVEONLY for t, md in params)
    phases = []
    for _ in range(rng.randint(1, 4)):
        phases.append({"how": rng.choice(["spy", "without", "none", "stubbed", "reset", "spytwice"]) if plain else rng.choice(["without", "without", "none", "stubbed", "reset"]),
                       "calls": [{"seed": rng.randrange(30), "throw": rng.random() < .25, "write": {str(k): rng.randrange(30) for k, (t, md) in enumerate(params) if md in ("r", "p", "rr") and rng.random() < .5}}
                                 for _ in range(rng.randint(1, 2))]})
    return {"m": m, "phases": phases, "pre": rng.randrange(3), "derived": rng.random() < .4, "inner": rng.random() < .5}


def code(u):
    m = u["m"]
    P = m["params"]
    R = S.rtype(m["ret"])
    q = m["qual"]
    sig = []
    for k, (t, md) in enumerate(P):
        sig.append({"v": "%s x%d" % (t, k), "cv": dcl((t, "cr"), "const T &", k).replace("&", ""), "r": dcl((t, "r"), "T &", k), "cr": dcl((t, "cr"), "const T &", k),
                    "rr": "%s &&x%d" % (t, k), "p": dcl((t, "p"), "ptr", k), "cp": dcl((t, "cp"), "ptr", k)}[md])
    out = ["static std::string seen; static int plan, boom; static std::map<int, int> writes;"]
    body = []
    for k, (t, md) in enumerate(P):
        if md in ("p", "cp"):
            body.append('seen += show(*x%d) + "@" + addr(x%d) + "|";' % (k, k))
        elif md in ("r", "cr", "rr"):
            body.append('seen += show(x%d) + "@" + addr(&x%d) + "|";' % (k, k))
        else:
            body.append('seen += show(x%d) + "|";' % k)
            if md == "v" and t not in S.MOVEONLY:
                body.append("x%d = make<%s>(91);" % (k, t))   # the original may do what it likes with its own copy
        if md in ("r", "rr"):
            body.append("if (writes.count(%d)) x%d = make<%s>(writes[%d]);" % (k, k, t, k))
        elif md == "p":
            body.append("if (writes.count(%d)) *x%d = make<%s>(writes[%d]);" % (k, k, t, k))
    out.append("static int others;")
    out.append("struct B {\n    int before;")
    out += ["    virtual int pre%d() { others++; return %d; }" % (i, i + 50) for i in range(u["pre"])]
    out.append("    virtual %s f(%s) %s { %s%s if (boom) throw Boom(plan); return Answer<%s>(plan)(); }" % (R, ", ".join(sig), q, " ".join(body), " seen += str(before);" if "volatile" in q or True else "", R))
    out.append("    virtual int last(int x) { others++; return x + before; }\n    B() : before(77) {}\n    virtual ~B() {}\n};")
    C = "B"
    if u["derived"]:
        out.append("struct D : B { virtual int more() { return 3; } int after; D() : after(5) {} };")
        C = "D"
    ref = S.ref_text(m)
    out.append("void one(int r) {\n    Listening l;")
    # arguments outlive the mock
    n = 0
    decl = []
    for i, ph in enumerate(u["phases"] + [{"calls": [{"seed": 3, "throw": False, "write": {}}]}]):
        for c in ph["calls"]:
            for k, (t, md) in enumerate(P):
                decl.append("    auto a%d_%d = make<%s>(%d + r); auto o%d_%d = make<%s>(%d + r); (void) o%d_%d;" % (n, k, t, c["seed"] + 3 * k, n, k, t, c["seed"] + 3 * k, n, k))
            n += 1
    out += decl
    out.append("    %s real;\n    { Mock<%s> mock(real); int count = 0; (void) count;" % (C, C))
    n = 0

    def call(c, how, obj):
        nonlocal n
        e = []
        want = ["std::string()"]
        for k, (t, md) in enumerate(P):
            v = "a%d_%d" % (n, k)
            e.append("&" + v if md in ("p", "cp") else "std::move(%s)" % v if md == "rr" or t in S.MOVEONLY else v)
            want.append('show(o%d_%d) + "@" + addr(&%s) + "|"' % (n, k, v) if md in ("r", "cr", "rr", "p", "cp") else 'show(o%d_%d) + "|"' % (n, k))
        x = "%s.f(%s)" % (S.receiver(m, "B", obj), ", ".join(e))
        out.append("    seen.clear(); plan = %d + r; boom = %d; writes = {%s};" % (c["seed"], 1 if c["throw"] else 0, ", ".join("{%s, %d}" % (k, w) for k, w in c["write"].items())))
        if how == "stubbed":
            out.append('    eq("call %d (stubbed)", outcome([&] { return Result<%s>::of([&]() -> %s { return %s; }); }), Result<%s>::want(500)); eq("call %d: the original must not run", seen, "");' % (n, R, R, x, R, n))
        else:
            out.append('    eq("call %d (%s)", outcome([&] { return Result<%s>::of([&]() -> %s { return %s; }); }), %s);' % (n, how, R, R, x, '"Boom " + str(plan)' if c["throw"] else "Result<%s>::want(plan)" % R))
            out.append('    eq("what the original saw in call %d (%s)", seen, %s + str(77));' % (n, how, " + ".join(want)))
            for k, (t, md) in enumerate(P):
                if md in ("v", "cv") and t in S.MOVEONLY:
                    continue
                w = c["write"].get(str(k))
                out.append('    eq("argument %d after call %d", show(a%d_%d), %s);' % (k, n, n, k, "show(make<%s>(%d))" % (t, w) if w is not None and md in ("r", "p", "rr") else "show(o%d_%d)" % (n, k)))
        n += 1

    bound = False
    state = "none"
    for i, ph in enumerate(u["phases"]):
        h = ph["how"]
        if h == "spy":
            out.append("    Spy(%s);" % ref)
            state, bound = "spy", True
        elif h == "spytwice":
            out.append("    Spy(%s); Spy(%s);" % (ref, ref))
            state, bound = "spy", True
        elif h == "without":
            out.append("    SpyWithoutVerify(%s);" % ref)
            state, bound = "spy", True
        elif h == "stubbed":
            out.append("    When(%s).AlwaysDo(Answer<%s>(500));" % (ref, R))
            state, bound = "stubbed", True
        elif h == "reset":
            out.append("    mock.Reset(); count = 0;")
            state, bound = "none", False
        for c in ph["calls"]:
            call(c, state, "mock.get()" if n % 2 else "hide(real)")
            if bound:
                out.append("    count++;")
            if h == "spy" and any(md in ("v", "cv") for t, md in P):
                pars = ", ".join({"p": dcl((t, md), "ptr", k), "cp": dcl((t, md), "ptr", k)}.get(md, dcl((t, "cr"), "const T &", k)) for k, (t, md) in enumerate(P))
                cond = " && ".join("show(x%d) == show(o%d_%d)" % (k, n - 1, k) for k, (t, md) in enumerate(P) if md in ("v", "cv"))
                out.append('    ok("arguments recorded in call %d", Verify(%s.Matching([&](%s) { %s return %s; })).AtLeastOnce());' % (n - 1, ref, pars, " ".join("(void) x%d;" % k for k in range(len(P))), cond))
            out.append('    eq("other methods", str(%s), str(%s)); eq("events", l.e.take(), "");' % (" + ".join(["hide(real).pre%d()" % j for j in range(u["pre"])] + ["mock.get().last(1)"]), " + ".join([str(j + 50) for j in range(u["pre"])] + ["78"])))
        if bound:
            out.append('    ok("number of calls in phase %d", Verify(%s).Exactly(count));' % (i, ref))
    out.append("    }")
    call({"seed": 3, "throw": False, "write": {}}, "after the mock", "hide(real)")
    out.append('    eq("other methods", str(hide(real).last(2)), "79");')
    out.append("}\nvoid run() { for (int r = 0; r < %d; r++) one(r); }" % ROUNDS)
    return "\n".join(out)


def nontrivial(u):
    return any(p["how"] in ("spy", "spytwice", "without") for p in u["phases"]) and len(u["m"]["params"]) >= 1


def labels(u):
    return sorted(set("phase " + p["how"] for p in u["phases"])) + (["throwing original"] if any(c["throw"] for p in u["phases"] for c in p["calls"]) else [])


def reductions(u):
    for i in range(len(u["phases"])):
        if len(u["phases"]) > 1:
            v = copy.deepcopy(u)
            del v["phases"][i]
            yield v
        if len(u["phases"][i]["calls"]) > 1:
            v = copy.deepcopy(u)
            del v["phases"][i]["calls"][1]
            yield v
    for k in range(len(u["m"]["params"])):
        v = copy.deepcopy(u)
        del v["m"]["params"][k]
        for ph in v["phases"]:
            for c in ph["calls"]:
                c["write"] = {str(int(j) - (int(j) > k)): w for j, w in c["write"].items() if int(j) != k}
        yield v
    if u["m"]["ret"] != "void":
        v = copy.deepcopy(u)
        v["m"]["ret"] = "void"
        yield v
    if u["pre"]:
        yield dict(copy.deepcopy(u), pre=0)
    if u["derived"]:
        yield dict(copy.deepcopy(u), derived=False)
    if u["m"]["qual"]:
        v = copy.deepcopy(u)
        v["m"]["qual"] = ""
        yield v
