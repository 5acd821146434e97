"""C10: out-parameter stubs set exactly the designated arguments."""
import copy
from . import shape as S

ROUNDS = 24
ARITH = ["signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "long long", "float", "double"]


def gen_action(rng, params, ret):
    outs = [k for k, p in enumerate(params) if p[1] in ("r", "p")]
    lead = 0
    while lead < len(params) and params[lead][1] in ("r", "p"):
        lead += 1
    x = rng.random()
    if x < .15 or not outs:
        return {"k": "plain", "n": rng.randrange(40), "set": []}
    if x < .5 and lead:
        ks = list(range(rng.randint(1, lead)))
        form = "pos"
    else:
        ks = rng.sample(outs, rng.randint(1, len(outs)))
        if rng.random() < .25 and len(ks) < 9:
            ks.append(rng.choice(ks))
        rng.shuffle(ks)
        form = "ph"
    st = []
    for k in ks:
        t = params[k][0]
        st.append({"p": k, "n": rng.randrange(40), "as": rng.choice(["temp", "temp", "var", "const"]), "t": rng.choice(ARITH) if t in ARITH and rng.random() < .3 else t})
    return {"k": form, "n": rng.randrange(40), "set": st}


def gen(rng, quick):
    n = rng.choice([1, 2, 2, 3, 4, 5, 6, 9])
    params = []
    for k in range(n):
        if rng.random() < .6:
            params.append(S.narrow((rng.choice(S.COPYABLE if rng.random() < .6 else ARITH), rng.choice(["r", "p"]))))
        else:
            params.append(S.gen_param(rng))
    ret = rng.choice(["void", (rng.choice(S.COPYABLE), "v")])
    m = {"name": "f", "ret": ret, "params": params, "qual": rng.choice(["", "", "const"]), "pure": True, "noexc": False, "lvl": 0, "over": False, "by": []}
    return {"m": m, "acts": [gen_action(rng, params, ret) for _ in range(rng.randint(1, 3))],
            "last": rng.choice([None, gen_action(rng, params, ret)]), "split": rng.random() < .2}


def sweep(rng):
    """every type as an out-parameter, by position and by placeholder"""
    us = []
    for t in S.COPYABLE:
        params = [S.narrow((t, md)) for md in ("r", "p", "r")]
        u = gen(rng, True)
        u["m"].update(params=params, qual="")
        one = lambda k: {"p": k, "n": rng.randrange(40), "as": rng.choice(["temp", "var", "const"]), "t": t}
        u["acts"] = [{"k": "pos", "n": rng.randrange(40), "set": [one(0), one(1)]}, {"k": "ph", "n": rng.randrange(40), "set": [one(2), one(1)]}]
        u["last"] = None
        us.append(u)
    return us


def code(u):
    m = u["m"]
    P = m["params"]
    R = S.rtype(m["ret"])
    ref = S.ref_text(m)
    out = ["struct C {", "    " + S.decl(m, " = 0;"), "    virtual ~C() {}", "};", "void one(int r) {", "    using namespace fakeit::placeholders;"]
    pre, chain, wants = [], "", []
    cnt = [0]

    def act(a, always):
        word = "Always" if always else ""
        rv = "" if m["ret"] == "void" else "make<%s>(%d + r)" % (m["ret"][0], a["n"])
        if a["k"] == "plain":
            return ".%s(%s)" % (word + "Return", rv)
        args = [rv] if rv else []
        for s in a["set"]:
            e = "make<%s>(%d + r)" % (s["t"], s["n"])
            if s["as"] != "temp":
                cnt[0] += 1
                pre.append("    %sauto v%d = %s;" % ("const " if s["as"] == "const" else "", cnt[0], e))
                e = "v%d" % cnt[0]
            args.append(e if a["k"] == "pos" else "_%d <= %s" % (s["p"] + 1, e))
        return ".%sReturnAndSet(%s)" % (word, ", ".join(args))

    seq = []
    for a in u["acts"]:
        chain += act(a, False)
        seq.append(a)
    if u["last"]:
        chain += act(u["last"], True)
        seq += [u["last"]] * 2
    body = []
    for i, a in enumerate(seq + [None] * (0 if u["last"] else 1)):
        body.append("    {")
        e = []
        for k, (t, md) in enumerate(P):
            body.append("      auto &a%d = *new %s(make<%s>(%d + r)); auto o%d = make<%s>(%d + r); (void) o%d;" % (k, t, t, 5 * i + k, k, t, 5 * i + k, k))
            e.append("&a%d" % k if md in ("p", "cp") else "std::move(a%d)" % k if md == "rr" or (t in S.MOVEONLY and md == "v") else "a%d" % k)
        call = "%s.f(%s)" % (S.receiver(m, "C", "mock.get()"), ", ".join(e))
        want = '"unexpected"' if a is None else "Result<%s>::want(%d + r)" % (R, a["n"])
        body.append('      eq("result of call %d", outcome([&] { return Result<%s>::of([&]() -> %s { return %s; }); }), %s);' % (i, R, R, call, want))
        sets = {}
        for s in (a["set"] if a else []):
            sets[s["p"]] = s
        for k, (t, md) in enumerate(P):
            if t in S.MOVEONLY and md == "v":
                continue
            if k in sets:
                s = sets[k]
                body.append('      eq("argument %d after call %d", show(a%d), show((%s) make<%s>(%d + r)));' % (k + 1, i, k, t, s["t"], s["n"]))
            else:
                body.append('      eq("argument %d after call %d (not designated)", show(a%d), show(o%d));' % (k + 1, i, k, k))
        # the recorded call still has its by-value arguments
        if a is not None:
            ml = ["o%d" % k if md == "v" and t not in S.MOVEONLY + ["SPI"] else "_" for k, (t, md) in enumerate(P)]
            pl = ", ".join(dict(v="%s &x%d", r="%s &x%d", rr="%s &x%d", cr="const %s &x%d", p="%s *x%d", cp="const %s *x%d")[md] % (t, k) if not (t.endswith("*") and md in ("cr", "cp")) else
                           ("%s const &x%d" if md == "cr" else "%s const *x%d") % (t, k) for k, (t, md) in enumerate(P))
            cond = " && ".join(['show(x%d) == show(o%d)' % (k, k) for k, (t, md) in enumerate(P) if md == "v"] +
                               ["%sx%d == &a%d" % ("&" if md in ("r", "cr", "rr") else "", k, k) for k, (t, md) in enumerate(P) if md in ("r", "cr", "rr", "p", "cp")] + ["true"])
            body.append('      ok("call %d is recorded with its arguments", Verify(%s.Matching([&](%s) { return %s; })).AtLeastOnce());' % (i, ref, pl, cond))
            body.append('      ok("call %d is recorded with its values", Verify(%s.Using(%s)).AtLeastOnce());' % (i, ref, ", ".join(ml)))
        body.append("    }")
    out += pre + ["    Mock<C> mock;", "    When(%s)%s;" % (ref, chain)] + body + ["}", "void run() { for (int r = 0; r < %d; r++) one(r); }" % ROUNDS]
    return "\n".join(out)


def nontrivial(u):
    return any(len(a["set"]) >= 1 for a in u["acts"] + ([u["last"]] if u["last"] else [])) and len(u["m"]["params"]) >= 2


def labels(u):
    acts = u["acts"] + ([u["last"]] if u["last"] else [])
    r = set({"pos": "positional", "ph": "placeholders", "plain": "plain return"}[a["k"]] for a in acts)
    if any(len(set(s["p"] for s in a["set"])) < len(a["set"]) for a in acts):
        r.add("argument designated twice")
    if any(a["k"] == "ph" and [s["p"] for s in a["set"]] != sorted(s["p"] for s in a["set"]) for a in acts):
        r.add("designated out of order")
    return sorted(r)


def reductions(u):
    for i in range(len(u["acts"])):
        if len(u["acts"]) > 1 or u["last"]:
            v = copy.deepcopy(u)
            del v["acts"][i]
            yield v
    if u["last"] and u["acts"]:
        yield dict(copy.deepcopy(u), last=None)
    for i, a in enumerate(u["acts"]):
        for j in range(len(a["set"])):
            if a["k"] == "ph" and len(a["set"]) > 1 or a["k"] == "pos" and j == len(a["set"]) - 1 and j > 0:
                v = copy.deepcopy(u)
                del v["acts"][i]["set"][j]
                yield v
    used = set(s["p"] for a in u["acts"] + ([u["last"]] if u["last"] else []) for s in a["set"])
    for k in range(len(u["m"]["params"])):
        if k not in used and k > max(list(used) + [-1]):
            v = copy.deepcopy(u)
            del v["m"]["params"][k]
            if v["m"]["params"]:
                yield v
    if u["m"]["ret"] != "void":
        v = copy.deepcopy(u)
        v["m"]["ret"] = "void"
        yield v
