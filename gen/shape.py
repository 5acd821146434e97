"""Random class chains (single inheritance) as plain data, and their C++ text.

A method is a dict: name, ret, params [(type, mode)], qual, pure, noexc, lvl (class that introduces it),
over (name shared with another method of the same class), by (levels that override it).
Modes: v value, cv const value, r T&, cr const T&, rr T&&, p T*, cp const T*.
"""

SCALARS = ["bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long",
           "long long", "unsigned long long", "wchar_t", "char16_t", "char32_t", "float", "double", "long double", "E8", "EI"]
POINTERS = ["int *", "const char *", "Fn", "MemPtr"]
OBJECTS = ["std::string", "VI", "PIS", "S1", "S2", "S3", "S4", "S5", "SD", "SF", "SM", "Big", "NT", "SPI"]
MOVEONLY = ["UPI", "MO"]
COPYABLE = SCALARS + POINTERS + OBJECTS + ["Al", "ND"]
# references to these may be recorded in the history and shown in messages without looking inside
ALL = COPYABLE + MOVEONLY


def ptype(p):
    t, mode = p
    if mode == "v":
        return t
    if mode == "cv":
        return "const " + t if not t.endswith("*") else t + "const"
    base = t
    c = ("const " + t) if not t.endswith("*") else t + "const"
    return {"r": base + "&", "cr": c + "&", "rr": base + "&&", "p": base + "*", "cp": c + "*"}[mode]


def rtype(r):
    """r: 'void' or (type, mode)"""
    return "void" if r == "void" else ptype(r)


def proto(m):
    return "%s(%s)" % (rtype(m["ret"]), ", ".join(ptype(p) for p in m["params"]))


def gen_param(rng, simple=False):
    x = rng.random()
    if simple or x < 0.55:
        return (rng.choice(SCALARS if rng.random() < .5 else COPYABLE), "v")
    t = rng.choice(COPYABLE)
    if x < 0.62:
        return (rng.choice(MOVEONLY), "v")
    return narrow((t, rng.choice(["r", "cr", "rr", "p", "cp"])))


def narrow(p):
    """pointers to characters are shown as zero-terminated text in messages: pass single characters by reference"""
    return (p[0], {"p": "r", "cp": "cr"}.get(p[1], p[1])) if p[0] in ("char", "signed char", "unsigned char") else p


def gen_ret(rng):
    x = rng.random()
    if x < 0.15:
        return "void"
    if x < 0.75:
        return (rng.choice(COPYABLE), "v")
    if x < 0.82:
        return (rng.choice(MOVEONLY), "v")
    return (rng.choice(COPYABLE), rng.choice(["r", "cr"]))


def gen_chain(rng, max_depth=4, max_methods=10, dtor=None, members=True, simple=False):
    depth = rng.randint(1, max_depth)
    with_dtor = rng.random() < 0.65 if dtor is None else dtor
    dtor_lvl = rng.randrange(depth) if with_dtor else -1
    methods, classes = [], []
    for lvl in range(depth):
        n = rng.choice([0, 1, 1, 2, 3, rng.randint(1, max_methods)])
        if lvl == 0 and n == 0 and dtor_lvl != 0:
            n = 1   # the root has to be polymorphic
        own = []
        k = 0
        while len(own) < n:
            group = 1 if rng.random() < .7 else rng.randint(2, 4)
            name = "%s%d" % ("abcdefgh"[lvl], k)
            if group == 1 and rng.random() < .06:
                name = "operator()" if not any(m["name"] == "operator()" for m in methods + own) else name
            k += 1
            sigs = set()
            for _ in range(group):
                m = {"name": name, "ret": gen_ret(rng), "params": [gen_param(rng, simple) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5, rng.randint(0, 12)]))],
                     "qual": "", "pure": rng.random() < .6, "noexc": rng.random() < .04, "lvl": lvl, "over": group > 1, "by": []}
                if rng.random() < .3:
                    m["qual"] = rng.choice(["const", "const", "const", "&", "const &", "&&", "const &&"] + ([] if group > 1 else ["volatile", "const volatile"]))
                # overloads must not mix methods with and without a reference qualifier for the same parameters
                key = tuple(ptype((t, "v" if md == "cv" else md)) for t, md in m["params"])
                if any(key == s for s, _ in sigs) and any((("&" in q) != ("&" in m["qual"])) or q == m["qual"] for s, q in sigs if s == key):
                    continue
                sigs.add((key, m["qual"]))
                own.append(m)
        mine = [m for m in own if m["name"] == m["name"]]
        for name in set(m["name"] for m in mine):   # a group that lost its other members is not overloaded
            g = [m for m in mine if m["name"] == name]
            for m in g:
                m["over"] = len(g) > 1
        # overriding inherited methods
        overrides = []
        for i, m in enumerate(methods):
            if not m["over"] and rng.random() < .25:
                m["by"].append(lvl)
                overrides.append(i)
        rng.shuffle(own)
        dpos = rng.randint(0, len(own)) if lvl == dtor_lvl else None
        redecl = lvl > dtor_lvl >= 0 and rng.random() < .3
        mem = []
        if members:
            for j in range(rng.choice([0, 0, 1, 2, 3])):
                mem.append((rng.choice(["char", "short", "int", "long", "double", "std::string", "VI", "S3", "Big", "SPI", "NT", "bool"]), "m%d_%d" % (lvl, j)))
        classes.append({"own": len(own), "overrides": overrides, "dtor": dpos, "redecl": redecl, "members": mem, "noctor": rng.random() < .15})
        base = len(methods)
        methods.extend(own)
        classes[-1]["range"] = [base, base + len(own)]
    return {"classes": classes, "methods": methods, "dtor_lvl": dtor_lvl}


def cname(lvl):
    return "C%d" % lvl


def decl(m, body):
    return "virtual %s %s(%s) %s%s%s" % (rtype(m["ret"]), m["name"], ", ".join(ptype(p) for p in m["params"]), m["qual"], " noexcept" if m["noexc"] else "", body)


def body(m):
    if m["ret"] == "void":
        return " { dead(); }"
    return " { dead(); %s }" % ("return make<%s>(0);" % m["ret"][0] if m["ret"][1] in ("v", "cv") else "return cell<%s>(0);" % m["ret"][0])


def gen_style(rng, ch, local=True, nv=True, pure=True):
    """Ways of writing the same chain: where the classes are declared, a class template as root, non-virtual functions
    that call virtual ones, methods whose overrides return a more derived class."""
    n = len(ch["classes"])
    st = {"place": rng.choice(["", "", "unnamed", "nested"] + ["local"] * local), "template": False, "nv": [], "cov": []}
    st["template"] = st["place"] != "local" and rng.random() < .25
    st["nv"] = [i for i in range(len(ch["methods"])) if nv and rng.random() < .2]
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        lvl = rng.randrange(n)
        st["cov"].append({"lvl": lvl, "ptr": rng.random() < .5, "const": rng.random() < .3, "front": rng.random() < .5, "pure": pure and rng.random() < .5,
                          "by": [k for k in range(lvl + 1, n) if rng.random() < .5]})
    ch["style"] = st


def cov_type(cov, lvl, name=None):
    """what the method returns when called through the class of that level"""
    at = max([cov["lvl"]] + [k for k in cov["by"] if k <= lvl])
    return "%s%s %s" % ("const " if cov["const"] else "", name if name and at == lvl else cname(at), "*" if cov["ptr"] else "&")


def forwarder(m, i):
    args, pars = [], []
    for k, p in enumerate(m["params"]):
        pars.append("%s p%d" % (ptype(p), k))
        args.append("std::move(p%d)" % k if p[1] == "rr" or p[0] in MOVEONLY and p[1] == "v" else "p%d" % k)
    return "%s nv%d(%s) %s { return %s.%s(%s); }" % (rtype(m["ret"]), i, ", ".join(pars), m["qual"], "std::move(*this)" if "&&" in m["qual"] else "(*this)", m["name"], ", ".join(args))


def chain_text(ch, final_bodies=False):
    """The classes of the chain; bodies of methods that must never run call dead()."""
    out = []
    style = ch.get("style") or {"place": "", "template": False, "nv": [], "cov": []}
    for lvl, c in enumerate(ch["classes"]):
        temp = style["template"] and lvl == 0
        self = cname(lvl) + ("T" if temp else "")
        out.append("%sstruct %s%s {" % ("template<class Q> " if temp else "", self, " : " + cname(lvl - 1) if lvl else ""))
        for t, n in c["members"][: len(c["members"]) // 2]:
            out.append("    %s %s;" % (t, n))

        def covs(front):
            for j, v in enumerate(style["cov"]):
                if v["lvl"] == lvl and v["front"] == front:
                    out.append("    virtual %s k%d()%s%s" % (cov_type(v, lvl, self), j, " const" if v["const"] else "", " = 0;" if v["pure"] and not final_bodies else " { dead(); return %sthis; }" % ("" if v["ptr"] else "*")))
        covs(True)
        a, b = c["range"]
        for k, i in enumerate(range(a, b)):
            if c["dtor"] == k:
                out.append("    virtual ~%s() { dtors() += %d; }" % (self, lvl + 1))
            m = ch["methods"][i]
            out.append("    " + decl(m, " = 0;" if m["pure"] and not final_bodies else body(m)))
            if i in style["nv"]:
                out.append("    " + forwarder(m, i))
        if c["dtor"] == b - a:
            out.append("    virtual ~%s() { dtors() += %d; }" % (self, lvl + 1))
        covs(False)
        if c["redecl"]:
            out.append("    ~%s() override { dtors() += 100; }" % cname(lvl))
        for i in c["overrides"]:
            out.append("    " + decl(ch["methods"][i], body(ch["methods"][i])))
        for j, v in enumerate(style["cov"]):
            if lvl in v["by"]:
                out.append("    %s k%d()%s override { dead(); return %sthis; }" % (cov_type(v, lvl), j, " const" if v["const"] else "", "" if v["ptr"] else "*"))
        for t, n in c["members"][len(c["members"]) // 2:]:
            out.append("    %s %s;" % (t, n))
        if c["noctor"]:
            out.append("    explicit %s(int, int)%s {}" % (self, " : %s(1, 2)" % cname(lvl - 1) if lvl and ch["classes"][lvl - 1]["noctor"] else ""))
        elif lvl and ch["classes"][lvl - 1]["noctor"]:
            out.append("    %s() : %s(1, 2) {}" % (cname(lvl), cname(lvl - 1)))
        out.append("};")
        if temp:
            out.append("typedef %s<int> %s;" % (self, cname(lvl)))
    if style["place"] == "unnamed":
        out = ["namespace {"] + out + ["}"]
    elif style["place"] == "nested":
        out = ["struct Outer {"] + out + ["};"] + ["typedef Outer::%s %s;" % (cname(k), cname(k)) for k in range(len(ch["classes"]))]
    return "\n".join(out)


def visible(ch, lvl):
    """indexes of the virtual methods a class of that level has"""
    return [i for i, m in enumerate(ch["methods"]) if m["lvl"] <= lvl]


def nameable(ch, i, lvl):
    m = ch["methods"][i]
    return not m["over"] or m["lvl"] == lvl


MACRO = {"": "OverloadedMethod", "const": "ConstOverloadedMethod", "&": "RefOverloadedMethod", "const &": "ConstRefOverloadedMethod",
         "&&": "RValRefOverloadedMethod", "const &&": "ConstRValRefOverloadedMethod"}


def ref_text(m, mock="mock", force=False):
    """how the method is named in stubbings and verifications"""
    if m["over"] or force:
        return "%s(%s, %s, %s)" % (MACRO[m["qual"]], mock, m["name"], proto(m))
    return "Method(%s, %s)" % (mock, m["name"])


def receiver(m, cls, obj):
    """expression of static class cls on which the method can be called"""
    q = m["qual"]
    c = ("const " if "const" in q else "") + ("volatile " if "volatile" in q else "")
    if "&&" in q:
        return "static_cast<%s%s &&>(%s)" % (c, cls, obj)
    return "static_cast<%s%s &>(%s)" % (c, cls, obj)


def arg_decls(m, seed):
    """declares the caller's variables a0.. and returns (declarations, argument expressions)"""
    d, e = [], []
    for k, (t, mode) in enumerate(m["params"]):
        d.append("auto a%d = make<%s>(%d);" % (k, t, (seed + 3 * k) % 40))
        if mode in ("v", "cv"):
            e.append("std::move(a%d)" % k if t in MOVEONLY else "a%d" % k)
        elif mode in ("r", "cr"):
            e.append("a%d" % k)
        elif mode == "rr":
            e.append("std::move(a%d)" % k)
        else:
            e.append("&a%d" % k)
    return d, e
