"""C25: run-time type information of mocks and spied objects."""
import copy
from . import shape as S


def gen(rng, quick):
    ch = S.gen_chain(rng, max_methods=4, max_depth=5)
    S.gen_style(rng, ch, local=False, nv=False, pure=False)
    top = len(ch["classes"]) - 1
    lvl = rng.randint(0, top)
    vis = [i for i in S.visible(ch, lvl) if S.nameable(ch, i, lvl) and not ch["methods"][i]["noexc"]]
    ops, nid = [["check"]], 1
    for _ in range(rng.randint(2, 8)):
        k = rng.choice(["check", "check", "stub", "stub", "call", "clear", "reset", "verify", "dtor"])
        if k in ("stub", "call", "verify") and vis:
            ops.append([k, rng.choice(vis), nid])
            nid += 1
        elif k in ("check", "clear", "reset"):
            ops.append([k])
        elif k == "dtor" and 0 <= ch["dtor_lvl"] <= lvl:
            ops.append([k])
    ops.append(["check"])
    sib = rng.randint(0, lvl)
    spied = rng.random() < .45
    # a spied object may be of a class derived from the mocked one
    return {"chain": ch, "lvl": lvl, "ops": ops, "sib": sib, "spied": spied, "real": rng.randint(lvl, top) if spied else lvl}


def code(u):
    ch, lvl, ops = u["chain"], u["lvl"], u["ops"]
    C = S.cname(lvl)
    real = u["real"]
    X = S.cname(real)
    top = len(ch["classes"]) - 1
    out = [S.chain_text(ch, final_bodies=u["spied"]), "struct Unrelated { virtual void x() {} virtual ~Unrelated() {} };", "struct Sibling : %s { virtual void sibling() {} int more; %s };"
           % (S.cname(u["sib"]), "Sibling() : %s(1, 2) {}" % S.cname(u["sib"]) if ch["classes"][u["sib"]]["noctor"] else "")]
    out.append("template<class B> void look(const std::string &when, B &b, const void *object) {")
    out.append('    ok(when + "typeid", typeid(b) == typeid(%s));' % X)
    out.append('    eq(when + "type name", typeid(b).name(), typeid(%s).name());' % X)
    out.append('    same(when + "complete object", dynamic_cast<void *>(&b), object);')
    for k in range(top + 1):
        if k <= real:
            out.append('    same(when + "cast to %s", dynamic_cast<%s *>(&b), object);' % (S.cname(k), S.cname(k)))
            out.append('    same(when + "cast to %s &", &dynamic_cast<const %s &>(b), object);' % (S.cname(k), S.cname(k)))
        else:
            out.append('    same(when + "cast to derived class %s", dynamic_cast<%s *>(&b), nullptr);' % (S.cname(k), S.cname(k)))
    out.append('    same(when + "cast to unrelated class", dynamic_cast<Unrelated *>(&b), nullptr);')
    out.append('    same(when + "cast to sibling class", dynamic_cast<Sibling *>(&b), nullptr);')
    out.append('    bool bad = false; try { (void) dynamic_cast<Unrelated &>(b); } catch (const std::bad_cast &) { bad = true; }')
    out.append('    ok(when + "reference cast to unrelated class must throw", bad);')
    out.append("}\nvoid check(const std::string &when, %s &obj, const void *object) {" % C)
    for k in range(lvl + 1):
        out.append('    look<%s>(when + " through %s: ", obj, object);' % (S.cname(k), S.cname(k)))
    out.append("}\nvoid run() {\n    Listening l;")
    if u["spied"]:
        arg = "(1, 2)" if ch["classes"][real]["noctor"] else "()"
        out.append("    %s *real = new %s%s;\n    const void *object = real;" % (X, X, arg))
        out.append("    { Mock<%s> mock(*real);" % C)
    else:
        out.append("    { Mock<%s> mock;\n    const void *object = &mock.get();" % C)
    cur = {}
    for k, op in enumerate(ops):
        if op[0] == "check":
            out.append('    check("op %d", mock.get(), object);' % k)
        elif op[0] == "stub":
            m = ch["methods"][op[1]]
            out.append("    When(%s).AlwaysDo(Answer<%s>(%d));" % (S.ref_text(m), S.rtype(m["ret"]), op[2]))
            cur[op[1]] = op[2]
        elif op[0] == "call":
            m = ch["methods"][op[1]]
            if u["spied"] and op[1] not in cur:
                continue
            d, e = S.arg_decls(m, op[2])
            R = S.rtype(m["ret"])
            out.append("    { %s outcome([&] { return Result<%s>::of([&]() -> %s { return %s.%s(%s); }); }); }" % (" ".join(x.replace("auto a", "static auto a", 1) for x in d), R, R, S.receiver(m, C, "mock.get()"), m["name"], ", ".join(e)))
        elif op[0] == "verify" and op[1] in cur:
            out.append("    (bool) Verify(%s).AtLeastOnce(); l.e.take();" % S.ref_text(ch["methods"][op[1]]))
        elif op[0] == "clear":
            out.append("    mock.ClearInvocationHistory();")
        elif op[0] == "reset":
            out.append("    mock.Reset();")
            cur = {}
        elif op[0] == "dtor":
            out.append("    Fake(Dtor(mock));")
    if u["spied"]:
        out.append('    }\n    check("after the mock", *real, object);')
        if ch["dtor_lvl"] >= 0 and ch["dtor_lvl"] <= real:
            out.append("    delete real;")
        out.append("}")
    else:
        out.append("    }\n}")
    return "\n".join(out)


def nontrivial(u):
    return u["lvl"] >= 1 and any(o[0] in ("stub", "reset", "clear", "dtor") for o in u["ops"])


def labels(u):
    return ["depth %d" % (u["lvl"] + 1), "mock" if not u["spied"] else "spied object of a derived class" if u["real"] > u["lvl"] else "spied object"]


def reductions(u):
    for i in range(len(u["ops"])):
        v = copy.deepcopy(u)
        del v["ops"][i]
        yield v
