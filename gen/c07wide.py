"""C07, wide classes: every slot of a class with hundreds of virtual methods. One translation unit stubs and calls every
(index mod parts == part) method of the class and calls all the others through a table of member pointers."""


def unit(n, dpos, part, parts, lvl_split, seed):
    return {"n": n, "dpos": dpos, "part": part, "parts": parts, "split": lvl_split, "seed": seed}


def gen(rng, quick):
    n = rng.choice([rng.randint(9, 60), rng.randint(60, 300)])
    return unit(n, rng.choice([-1, rng.randint(0, n)]), rng.randrange(3), 3 if n < 60 else n // 20, rng.choice([0, rng.randint(1, n - 1)]), rng.randrange(1000))


def chosen(u):
    return [i for i in range(u["n"]) if i % u["parts"] == u["part"] or i in (0, u["n"] - 1)]


def code(u):
    n, split = u["n"], u["split"]
    out = []

    def methods(a, b, cls):
        for i in range(a, b):
            if u["dpos"] == i:
                out.append("    virtual ~%s() {}" % cls)
            out.append("    virtual int f%d(int) = 0;" % i)
        if u["dpos"] == b and b == n:
            out.append("    virtual ~%s() {}" % cls)
    if split:
        out.append("struct B {")
        methods(0, split, "B")
        out.append("};\nstruct C : B {")
        methods(split, n, "C")
    else:
        out.append("struct C {")
        methods(0, n, "C")
    out.append("};\ntypedef int (C::*P)(int);")
    out.append("static const P table[] = {%s};" % ", ".join("(P) &C::f%d" % i for i in range(n)))
    out.append("void run() {\n    Listening l;\n    Mock<C> mock;\n    C &obj = mock.get();\n    int calls = 0;\n    std::vector<int> stubbed(%d, 0);" % n)
    out.append('''    auto sweep = [&](const char *when) {
        for (int i = 0; i < %d; i++) {
            std::string got = outcome([&] { return str((obj.*table[i])(i)); });
            eq(std::string(when) + ": call of method " + str(i) + " of %d", got, stubbed[(size_t) i] ? str(stubbed[(size_t) i]) : "unexpected");
            eq("events", l.e.take(), stubbed[(size_t) i] ? "" : "unmocked unknown();");
        }
    };
    sweep("nothing stubbed");''' % (n, n))
    ch = chosen(u)
    import random
    rng = random.Random(u["seed"])
    rng.shuffle(ch)
    gaps = u["seed"] % 2 and u["n"] <= 300   # as if other macros had counted in between
    half = len(ch) // 2
    for k, i in enumerate(ch):
        if k == half:
            out.append('    sweep("half stubbed");')
        if gaps:
            g = rng.randint(200, 300)
            out.append("    { static const int gap[] = {%s 0}; (void) gap; }" % ("GAP64 " * (g // 64) + "GAP8 " * (g % 64 // 8) + "GAP1 " * (g % 8)))
        if k % 2:
            out.append("    When(Method(mock, f%d)).AlwaysReturn(%d);" % (i, 100000 + i))
        else:
            out.append("    Method(mock, f%d) = [](int x) { return 100000 + x; };" % i)
        out.append("    stubbed[%d] = %d;" % (i, 100000 + i))
    out.append('    sweep("stubbed");')
    for k, i in enumerate(ch):
        if k % 2 == 0:
            out.append('    ok("calls of %d", Verify(Method(mock, f%d).Using(%d)).Exactly(%d));' % (i, i, i, 2 if k < half else 1))
    out.append("    mock.Reset();\n    stubbed.assign(%d, 0);\n    sweep(\"after reset\");\n}" % n)
    return "\n".join(out)


def nontrivial(u):
    return u["n"] >= 9


def labels(u):
    return ["wide class, %s methods" % ("9-60" if u["n"] <= 60 else "60-300" if u["n"] <= 300 else "300-999")]


def reductions(u):
    for n in (10, 20, 50, 100, 200, 400, 800):
        if n < u["n"]:
            v = dict(u, n=n, split=min(u["split"], n - 1) if u["split"] else 0, dpos=min(u["dpos"], n))
            yield v
    if u["split"]:
        yield dict(u, split=0)
    if u["dpos"] != -1:
        yield dict(u, dpos=-1)
