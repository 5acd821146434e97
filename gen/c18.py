"""C18: data members."""
import copy
from . import shape as S

PLAIN = ["bool", "char", "signed char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "long long", "float", "double", "long double", "E8", "EI",
         "int *", "const char *", "Fn", "S1", "S2", "S3", "S4", "S5", "SD", "SF", "SM", "Big"]
LIVE = ["Track", "Track", "Track", "std::string", "VI", "NT", "SPI"]
INIT = {"std::string": '"abc"', "VI": "4, 5", "NT": '"abc", 3', "SPI": "std::make_shared<int>(8)"}
SHOWN = {"std::string": '"string abc"', "VI": '"vec 4 5"', "NT": '"NT abc3"', "SPI": '"shared 8"'}


def gen(rng, quick):
    ch = S.gen_chain(rng, max_methods=4, max_depth=4, members=False)
    S.gen_style(rng, ch, local=False, nv=False, pure=False)
    spied = rng.random() < .25
    mem = []
    for lvl, c in enumerate(ch["classes"]):
        for j in range(rng.choice([0, 1, 2, 3, 5])):
            t = rng.choice(PLAIN if rng.random() < .65 else LIVE)
            c["members"].append((t, "m%d_%d" % (lvl, j)))
            mem.append((lvl, t, "m%d_%d" % (lvl, j)))
        if spied:
            c["noctor"] = False
    top = len(ch["classes"]) - 1
    lvl = rng.choice([top, rng.randint(0, top)])
    vis = [i for i in S.visible(ch, lvl) if S.nameable(ch, i, lvl) and not ch["methods"][i]["noexc"]]
    mine = [x for x in range(len(mem)) if mem[x][0] <= lvl]
    ops, nid = [["check"]], 1
    for _ in range(rng.randint(3, 18)):
        k = rng.choice(["write", "write", "write", "mstub", "mstub", "stub", "call", "clear", "reset", "check", "check", "use"])
        if k in ("write", "mstub", "use") and mine:
            if k == "mstub" and spied:
                continue   # stubbing a member of a real object would overwrite a living one
            ops.append([k, rng.choice(mine), rng.randrange(1, 40)])
        elif k in ("stub", "call") and vis:
            ops.append([k, rng.choice(vis), nid])
            nid += 1
        elif k == "check" or k in ("clear", "reset") and rng.random() < .5:
            ops.append([k])
    ops.append(["check"])
    return {"chain": ch, "lvl": lvl, "ops": ops, "mem": mem, "spied": spied}


def code(u):
    ch, lvl, mem = u["chain"], u["lvl"], u["mem"]
    C = S.cname(lvl)
    mine = [x for x in range(len(mem)) if mem[x][0] <= lvl]
    out = [S.chain_text(ch, final_bodies=u["spied"]), "void one() {\n    Listening l;\n    Track::reset();"]
    state = {}     # member -> expected text of a plain member / None = not living / ["live", text]
    if u["spied"]:
        out.append("    %s *real = new %s();" % (C, C))
        for x in mine:
            t, n = mem[x][1], mem[x][2]
            if t == "Track":
                out.append("    real->%s.v = %d;" % (n, 100 + x))
                state[x] = 'str(%d) + "/Track"' % (100 + x)
            else:
                out.append("    real->%s = make<%s>(%d);" % (n, t, x + 1))
                state[x] = "show(make<%s>(%d))" % (t, x + 1)
        out.append("    int alive = Track::alive();\n    { Mock<%s> mock(*real);" % C)
    else:
        out.append("    int alive = 0; (void) alive;\n    { Mock<%s> mock;" % C)
        for x in mine:
            state[x] = "zeroOf<%s>()" % mem[x][1] if mem[x][1] in PLAIN else None
    out.append("    %s &obj = mock.get();" % C)
    live = {}
    cur = {}

    def zero():
        for x in mine:
            t = mem[x][1]
            state[x] = "zeroOf<%s>()" % t if t in PLAIN else None

    def showx(x, o="obj."):
        return "show(%s%s)" % (o, mem[x][2])

    def check(k, o="obj."):
        for x in mine:
            if state[x] is not None:
                out.append('    eq("op %s: member %s", %s, %s);' % (k, mem[x][2], showx(x, o), state[x]))
        n = sum(1 for x in mine if x in live and mem[x][1] == "Track")
        out.append('    eq("op %s: living members", str(Track::alive()), str(alive + %d));' % (k, n))
        for i in sorted(cur):
            m = ch["methods"][i]
    for k, op in enumerate(u["ops"]):
        if op[0] == "check":
            check(k)
        elif op[0] == "write":
            x = op[1]
            t, n = mem[x][1], mem[x][2]
            if state[x] is None:
                continue
            if t == "Track":
                out.append("    obj.%s.v = %d;" % (n, op[2]))
                state[x] = 'str(%d) + "/Track"' % op[2]
            else:
                out.append("    obj.%s = make<%s>(%d);" % (n, t, op[2]))
                state[x] = "show(make<%s>(%d))" % (t, op[2])
        elif op[0] == "use":
            x = op[1]
            t, n = mem[x][1], mem[x][2]
            if state[x] is not None and t == "VI":
                out.append("    obj.%s = VI(100, 7); obj.%s.push_back(%d); eq(\"op %d: use of a vector member\", str(obj.%s.size()), \"101\");" % (n, n, op[2], k, n))
                state[x] = 'show([] { VI v(100, 7); v.push_back(%d); return v; }())' % op[2]
            elif state[x] is not None and t == "std::string":
                out.append("    obj.%s = std::string(200, 'x'); obj.%s += \"y\";" % (n, n))
                state[x] = "\"string \" + std::string(200, 'x') + \"y\""
        elif op[0] == "mstub":
            x = op[1]
            t, n = mem[x][1], mem[x][2]
            if x in live:
                continue   # already a living object
            if t in PLAIN:
                if t in ("Big", "S1", "S2", "S3", "S4", "S5", "SD", "SF", "SM", "bool", "E8", "EI", "char", "signed char"):
                    init, want = "", state_zero(t)
                else:
                    init, want = ", make<%s>(%d)" % (t, op[2]), "show(make<%s>(%d))" % (t, op[2])
            elif t == "Track":
                init, want = ", %d" % op[2], 'str(%d) + "/Track"' % op[2]
            else:
                init, want = ", " + INIT[t], SHOWN[t]
            out.append("    mock.Stub((%s %s::*) &%s::%s%s);" % (t, C, C, n, init))
            live[x] = True
            state[x] = want
        elif op[0] == "stub":
            m = ch["methods"][op[1]]
            out.append("    When(%s).AlwaysDo(Answer<%s>(%d));" % (S.ref_text(m), S.rtype(m["ret"]), op[2]))
            cur[op[1]] = op[2]
        elif op[0] == "call":
            m = ch["methods"][op[1]]
            if op[1] not in cur:
                continue
            d, e = S.arg_decls(m, op[2])
            R = S.rtype(m["ret"])
            out.append('    { %s eq("op %d: call of %s", outcome([&] { return Result<%s>::of([&]() -> %s { return %s.%s(%s); }); }), Result<%s>::want(%d)); }'
                       % (" ".join(x.replace("auto a", "static auto a", 1) for x in d), k, m["name"], R, R, S.receiver(m, C, "mock.get()"), m["name"], ", ".join(e), R, cur[op[1]]))
        elif op[0] == "clear":
            out.append("    mock.ClearInvocationHistory();")
        elif op[0] == "reset":
            out.append("    mock.Reset();")
            cur = {}
            if not u["spied"]:
                live = {}
                zero()
                check(str(k) + " (after reset)")
    out.append("    }")
    live = {}
    out.append('    eq("living members after the mock", str(Track::alive()), str(alive)); eq("destroyed too often", str(Track::bad()), "0");')
    if u["spied"]:
        check("end", "real->")
        if 0 <= ch["dtor_lvl"] <= lvl or True:
            out.append("    // the real object is left alone")
    out.append("}\nvoid run() { one(); one(); }")
    return "\n".join(out)


def state_zero(t):
    return "zeroOf<%s>()" % t


def nontrivial(u):
    return len(u["mem"]) >= 2 and sum(o[0] in ("write", "mstub", "use") for o in u["ops"]) >= 2


def labels(u):
    r = ["spied object" if u["spied"] else "mock"] + [{"mstub": "member stubbed", "write": "member written", "reset": "reset", "clear": "history cleared"}[o[0]] for o in u["ops"] if o[0] in ("mstub", "write", "reset", "clear")]
    return sorted(set(r)) + ["member " + t for t in sorted(set(m[1] for m in u["mem"])) if t in LIVE]


def reductions(u):
    for i in range(len(u["ops"])):
        v = copy.deepcopy(u)
        del v["ops"][i]
        yield v
