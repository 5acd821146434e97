"""C07: every virtual method reaches its own stub, for every class shape."""
import copy
from . import shape as S
from .core import without


def gen(rng, quick):
    ch = S.gen_chain(rng, max_methods=8)
    S.gen_style(rng, ch)
    lvl = rng.choice([len(ch["classes"]) - 1, rng.randrange(len(ch["classes"]))])
    vis = S.visible(ch, lvl)
    if not vis:   # only a destructor
        lvl = len(ch["classes"]) - 1
        vis = S.visible(ch, lvl)
    ops, nid = [], 1
    named = [i for i in vis if S.nameable(ch, i, lvl)]
    for _ in range(rng.randint(1, 2)):
        for _ in range(rng.randint(2, 14)):
            if not vis:
                break
            if named and rng.random() < .45:
                ops.append(["stub", rng.choice(named), nid, rng.choice(["do", "do", "ret", "assign"])])
                nid += 1
            else:
                i = rng.choice(vis)
                ops.append(["call", i, rng.randint(ch["methods"][i]["lvl"], lvl), rng.randrange(40)])
            for j, v in enumerate(ch["style"]["cov"]):
                if v["lvl"] <= lvl and rng.random() < .15:
                    ops.append(["cstub", j, rng.choice(["do", "ret"])] if rng.random() < .5 else ["ccall", j, rng.randint(v["lvl"], lvl)])
        for i in vis:   # finally every method once
            if rng.random() < .8:
                ops.append(["call", i, rng.randint(ch["methods"][i]["lvl"], lvl), rng.randrange(40)])
        ops.append(["verify"])
        if rng.random() < .5:
            ops.append(["reset"])
    return {"chain": ch, "lvl": lvl, "ops": ops}


def is_rec(m):
    """arguments recorded by reference must outlive the history: keep them static"""
    return any(md in ("r", "cr", "rr", "p", "cp") for _, md in m["params"])


def code(u):
    ch, lvl = u["chain"], u["lvl"]
    out = ["void run() {", S.chain_text(ch)] if ch["style"]["place"] == "local" else [S.chain_text(ch), "void run() {"]
    out += ["    Listening l;", "    Mock<%s> mock;" % S.cname(lvl), "    %s &obj = mock.get();" % S.cname(lvl)]
    cur, cnt, ccnt = {}, {}, {}
    for k, op in enumerate(u["ops"]):
        if op[0] == "stub":
            _, i, nid, how = op
            m = ch["methods"][i]
            R = S.rtype(m["ret"])
            ref = S.ref_text(m)
            ret = m["ret"]
            if how == "ret" and ret != "void" and ret[0] in S.COPYABLE:
                out.append("    When(%s).AlwaysReturn(%s);" % (ref, "make<%s>(%d)" % (ret[0], nid) if ret[1] == "v" else "cell<%s>(%d)" % (ret[0], nid)))
                cur[i] = (nid, False)
            elif how == "assign":
                out.append("    %s = Answer<%s>(%d);" % (ref, R, nid))
                cur[i] = (nid, True)
            else:
                out.append("    When(%s).AlwaysDo(Answer<%s>(%d));" % (ref, R, nid))
                cur[i] = (nid, True)
            cnt.setdefault(i, 0)
        elif op[0] == "call":
            _, i, cls, seed = op
            m = ch["methods"][i]
            if m["noexc"] and i not in cur:
                continue
            d, e = S.arg_decls(m, seed)
            R = S.rtype(m["ret"])
            call = "%s.%s(%s)" % (S.receiver(m, S.cname(cls), "obj"), "nv%d" % i if i in ch["style"]["nv"] and seed % 2 else m["name"], ", ".join(e))
            lam = "[&]() -> %s { return %s; }" % (R, call)
            what = "op %d: call of %s through %s" % (k, m["name"], S.cname(cls))
            # the arguments stay alive: references to them are recorded
            out.append("    { %s" % " ".join(x.replace("auto a", "static auto a", 1) for x in d))
            if i in cur:
                nid, noted = cur[i]
                cnt[i] += 1
                out.append('      eq("%s", outcome([&] { return Result<%s>::of(%s); }), Result<%s>::want(%d));' % (what, R, lam, R, nid))
                if noted:
                    out.append('      eq("%s (answered by)", str(lastId()), "%d");' % (what, nid))
                out.append('      eq("%s (events)", l.e.take(), ""); }' % what)
            else:
                out.append('      eq("%s", outcome([&] { return Result<%s>::of(%s); }), "unexpected");' % (what, R, lam))
                out.append('      eq("%s (events)", l.e.take(), "unmocked unknown();"); }' % what)
        elif op[0] == "cstub":
            _, j, how = op
            v = ch["style"]["cov"][j]
            R = S.cov_type(v, lvl)
            if how == "do":
                out.append("    When(Method(mock, k%d)).AlwaysDo([&]() -> %s { return %sobj; });" % (j, R, "&" if v["ptr"] else ""))
            else:
                out.append("    When(Method(mock, k%d)).AlwaysReturn(%sobj);" % (j, "&" if v["ptr"] else ""))
            ccnt.setdefault(j, 0)
        elif op[0] == "ccall":
            _, j, cls = op
            v = ch["style"]["cov"][j]
            what = "op %d: call of k%d through %s" % (k, j, S.cname(cls))
            out.append('    eq("%s", outcome([&]() -> std::string { %s r = static_cast<%s &>(obj).k%d(); return addr(%sr); }), %s);' % (
                what, S.cov_type(v, cls), S.cname(cls), j, "" if v["ptr"] else "&", "addr(&obj)" if j in ccnt else '"unexpected"'))
            out.append('    eq("%s (events)", l.e.take(), "%s");' % (what, "" if j in ccnt else "unmocked unknown();"))
            if j in ccnt:
                ccnt[j] += 1
        elif op[0] == "verify":
            for j in sorted(ccnt):
                out.append('    ok("op %d: number of calls of k%d", Verify(Method(mock, k%d)).Exactly(%d));' % (k, j, j, ccnt[j]))
            for i in sorted(cur):
                m = ch["methods"][i]
                out.append('    ok("op %d: number of calls of %s", Verify(%s).Exactly(%d));' % (k, m["name"], S.ref_text(m), cnt[i]))
            if cur or ccnt:
                out.append('    ok("op %d: all calls verified", VerifyNoOtherInvocations(mock));' % k)
        elif op[0] == "reset":
            out.append("    mock.Reset();")
            cur, cnt, ccnt = {}, {}, {}
    out.append("}")
    return "\n".join(out)


def nontrivial(u):
    return len(set(o[1] for o in u["ops"] if o[0] == "stub")) >= 2 and len(S.visible(u["chain"], u["lvl"])) >= 3


def labels(u):
    ch = u["chain"]
    r = ["depth %d" % (u["lvl"] + 1), "virtual destructor" if 0 <= ch["dtor_lvl"] <= u["lvl"] else "no virtual destructor"]
    n = len(S.visible(ch, u["lvl"]))
    r.append("1-3 methods" if n <= 3 else "4-8 methods" if n <= 8 else "more than 8 methods")
    if any(m["over"] for m in ch["methods"]):
        r.append("overloads")
    st = ch["style"]
    r += [st["place"] + " classes"] * bool(st["place"]) + ["class template"] * st["template"] + ["covariant results"] * bool(st["cov"])
    return r


def reductions(u):
    n = len(u["ops"])
    step = max(1, n // 2)
    while step >= 1:
        for i in range(0, n, step):
            v = copy.deepcopy(u)
            del v["ops"][i:i + step]
            yield v
        if step == 1:
            break
        step //= 2
