"""C27: requests that cannot be carried out are rejected by the compiler, the corrected request is accepted."""
import concurrent.futures as cf
import hashlib
import random
import subprocess
import time

from gen import core

# parameter type, name of an argument, fitting values, values that do not fit
TYPES = [
    ("int", ["5", "Eq(7)", "Gt(3)", "_", "Any()", "ApproxEq(3, 1)"], ['std::string("x")', 'Eq(std::string("x"))', 'StrEq("x")', "Own{1}", "Lt(Own{1})"]),
    ("const int &", ["5", "Ne(7)", "_"], ['std::string("x")', 'StrLt("x")', "Own{1}", 'Ge(std::string())']),
    ("double", ["2.5", "ApproxEq(2.0, 0.5)", "_"], ['std::string("x")', 'StrEq("x")', "Eq(Own{1})"]),
    ("std::string", ['"x"', 'Eq(std::string("x"))', "_"], ["Eq(5)", "Own{1}", "ApproxEq(1.0, 2.0)", "Gt(Own{1})"]),
    ("const std::string &", ['std::string("x")', 'Lt("x")', "_"], ["Le(5)", "Own{2}", "ApproxEq(1, 2)"]),
    ("const char *", ['StrEq("x")', 'StrNe(std::string("x"))', "_"], ["Own{1}", "ApproxEq(1.0, 2.0)", "Eq(Own{1})"]),
    ("Own", ["Own{1}", "Eq(Own{2})", "_"], ["Gt(Own{1})", 'StrEq("x")', "ApproxEq(1.0, 1.0)", 'Eq(std::string("x"))']),
    ("const Own &", ["Own{1}", "_"], ["Le(Own{1})", 'StrGe("x")']),
    ("int *", ["nullptr", "Ne(nullptr)", "_"], ['std::string("x")', "Own{1}", "ApproxEq(1.0, 1.0)"]),
]
RESULTS = [("int", "3", ['std::string("x")', "Own{1}", "(int *) nullptr"]), ("std::string", '"x"', ["Own{1}", "(int *) nullptr"]), ("void", "", ["3", "Own{1}"]),
           ("Own", "Own{3}", ['std::string("x")', "4.5", "nullptr"]), ("int *", "nullptr", ["5.5", "Own{1}"]), ("double", "2", ['std::string("x")', "Own{1}"])]
# every kind of request
KINDS = ["cond", "cond", "cond", "count", "count", "result", "result", "results", "action", "action", "predicate", "spy", "class", "class", "position", "outvalue", "always", "sequence", "source", "assign",
         "member", "overload", "dtor", "mock"]


def gen(rng, quick):
    k = rng.choice(KINDS)
    params = [rng.randrange(len(TYPES)) for _ in range(rng.randint(1, 4))]
    return {"kind": k, "params": params, "pos": rng.randrange(len(params)), "pick": [rng.randrange(1000) for _ in params] + [rng.randrange(1000)], "ret": rng.randrange(len(RESULTS)),
            "form": rng.randrange(1000), "before": rng.randint(0, 3)}


HEAD = """#include "fakeit.hpp"
#include <memory>
#include <string>
using namespace fakeit;
using namespace fakeit::placeholders;
struct Own { int v; bool operator==(const Own &o) const { return v == o.v; } bool operator!=(const Own &o) const { return v != o.v; } };
"""


def only(u, cfg):
    """the request is rejected with these compilers only"""
    if u["kind"] == "class" and u["form"] % 4 < 2:
        return cfg.startswith("g++")
    if u["kind"] == "position":
        return "c++11" not in cfg
    return True


def body(u, bad):
    """-> declarations, statements"""
    P = [TYPES[i] for i in u["params"]]
    types = [p[0] for p in P]
    R, rgood, rbads = RESULTS[u["ret"]]
    pos, form, pick = u["pos"], u["form"], u["pick"]
    more = "".join("virtual int before%d(int) = 0; " % i for i in range(u["before"]))
    I = "struct I { %svirtual %s f(%s) = 0; virtual int g(int) = 0; int data; virtual ~I() {} };" % (more, R, ", ".join(types))
    J = "struct J { virtual int other(int) = 0; int data; };"
    good = [p[1][pick[i] % len(p[1])] for i, p in enumerate(P)]
    ret = "Return(%s)" % rgood
    finish = lambda m: ["When(%s).%s;" % (m, ret), "Verify(%s).Once();" % m, "Fake(%s);" % m, "VerifyNoOtherInvocations(%s);" % m, "Verify(%s + %s);" % (m, m)][form // 16 % 5]
    k = u["kind"]
    D = I + "\n" + J
    if k == "cond":
        args = list(good)
        if bad:
            args[pos] = P[pos][2][pick[-1] % len(P[pos][2])]
        m = "Method(m, f).Using(%s)" % ", ".join(args)
        return D, "Mock<I> m; " + finish(m)
    if k == "count":
        args = list(good)
        if bad:
            args = args + ["_"] if form % 2 or len(args) == 1 else args[:-1]
        m = "Method(m, f).Using(%s)" % ", ".join(args)
        if not bad or args:
            return D, "Mock<I> m; " + finish(m)
    if k == "result":
        v = rbads[pick[-1] % len(rbads)] if bad else rgood
        if not bad and R == "void":
            return D, "Mock<I> m; When(Method(m, f)).%s;" % ["Return()", "AlwaysReturn()"][form % 2]
        return D, "Mock<I> m; When(Method(m, f)).%s(%s);" % (["Return", "AlwaysReturn"][form % 2], v)
    if k == "results":
        if R == "void":
            return D, "Mock<I> m; When(Method(m, f)).Return(%s);" % ("2_Times(3)" if bad else "2_Times")
        v = rbads[pick[-1] % len(rbads)]
        r = {"int": "4", "std::string": 'std::string("y")', "Own": "Own{4}", "int *": "(int *) nullptr", "double": "4.5"}[R]
        if form % 2:
            return D, "Mock<I> m; When(Method(m, f)).Return(%s, %s);" % (r, v if bad else r)
        return D, "Mock<I> m; When(Method(m, f)).Return(2_Times(%s));" % (v if bad else r)
    if k == "action":
        a = list(types)
        res = "return %s;" % rgood if R != "void" else ""
        out = "-> %s " % R
        if bad:
            way = form % 3
            if way == 0:
                a.append("int")
            elif way == 1:
                a[pos] = "Unrelated"
            elif R != "void":
                out, res = "-> Unrelated ", "return Unrelated{};"
            else:
                a = a + ["double"]
        act = "[](%s) %s{ %s }" % (", ".join(a), out, res)
        st = ["When(Method(m, f)).Do(%s);", "When(Method(m, f)).AlwaysDo(%s);", "Method(m, f) = %s;", "When(Method(m, f)).Do(2_Times(%s));"][form // 3 % 4] % act
        return "struct Unrelated {};\n" + D, "Mock<I> m; " + st
    if k == "predicate":
        a = [t if "&" in t or "*" in t else t for t in types]
        res = "return true;"
        out = "-> bool"
        if bad:
            if form % 3 == 0:
                a.append("int")
            elif form % 3 == 1:
                a[pos] = "Unrelated"
            else:
                out, res = "-> Unrelated", "return Unrelated{};"
        return "struct Unrelated {};\n" + D, "Mock<I> m; " + finish("Method(m, f).Matching([](%s) %s { %s })" % (", ".join(a), out, res))
    if k == "spy":
        a = list(types)
        if bad:
            a[pos] = "std::unique_ptr<int>"
        C = "struct C { virtual int f(%s) { return 1; } };" % ", ".join(a)
        return C, "C c; Mock<C> m(c); %s(Method(m, f));" % ("Spy" if bad or form % 2 else "SpyWithoutVerify")
    if k == "class":
        way = form % 4
        A = "struct A { %s virtual int a(int) { return 1; } int d; };" % more.replace("= 0", "{ return 0; }")
        B = "struct B { virtual int b(int) { return 2; } int e; };"
        if way == 0:
            C = "struct C : A%s { virtual int c(int) { return 3; } };" % (", B" if bad else "")
        elif way == 1:
            C = "struct D : A%s { int dd; }; struct C : D { virtual int c(int) { return 3; } };" % (", B" if bad else "")
        elif way == 2:
            C = "struct C%s { %s int c(int) { return 3; } int d; };" % ("" if form // 4 % 2 or not bad else " : Empty", "" if bad else "virtual")
        else:
            C = "struct C %s: A { virtual int c(int) { return 3; } };" % ("final " if bad else "")
        return "struct Empty {};\n" + A + B + C, "Mock<C> m; m.get();" if form // 8 % 2 else "C c; Mock<C> m(c);"
    if k == "position":
        n = len(P) + 1
        outs = ", ".join(["int *", "int &"][(form + i) % 2] for i in range(len(P)))
        O = "struct I { virtual int f(%s) = 0; };" % outs
        p = n + form // 2 % 3 if bad else 1 + form // 2 % len(P)
        return O, "Mock<I> m; When(Method(m, f)).%s(1, _%d <= 5);" % (["ReturnAndSet", "AlwaysReturnAndSet"][form % 2], p)
    if k == "outvalue":
        O = "struct I { virtual int f(int *, std::string &, double *) = 0; };"
        v = ["1", 'std::string("x")', "2.5"]
        if bad:
            w = form % 3
            v[w] = "Own{1}" if form // 3 % 2 or w == 1 else 'std::string("y")'
        return O, "Mock<I> m; When(Method(m, f)).ReturnAndSet(1, %s);" % ", ".join(v[:3 if form // 6 % 2 else max(1, form % 3 + 1)])
    if k == "always":
        first = "Return(%s)" % rgood
        last = ["Return(%s)" % rgood, "Throw(3)", "AlwaysReturn(%s)" % rgood, "AlwaysThrow(4)"][form % 4]
        mid = ["AlwaysReturn(%s)" % rgood, "AlwaysThrow(3)"][form // 4 % 2] if bad else "Throw(3)"
        return D, "Mock<I> m; When(Method(m, f)).%s.%s.%s;" % (first, mid, last)
    if k == "sequence":
        s = ["Method(m, f) + Method(m, g)", "Method(m, f) * 2", "2 * Method(m, g)"][form % 3]
        if bad:
            return D, "Mock<I> m; %s;" % ["When(%s).Return(1)" % s, "Fake(%s)" % s, "Spy(%s)" % s, "Using(m).Verify()"][form // 3 % 3]
        return D, "Mock<I> m; Verify(%s);" % s
    if k == "source":
        v = ["number", "text", "plain"][form % 3] if bad else ["m", "Method(m, f)", "m, Method(m, g)"][form % 3]
        st = ["VerifyNoOtherInvocations(%s);", "Using(%s).Verify(Method(m, f));"][form // 3 % 2] % v
        if bad and form // 6 % 3 == 0:
            st = "Verify(m);"
        return D, "Mock<I> m; int number = 1; std::string text; I *plain = nullptr; (void) number; (void) plain; " + st
    if k == "assign":
        return D, "Mock<I> m, n; %s" % ("n = m;" if bad else "Mock<I> &r = n; (void) r;")
    if k == "member":
        return D, "Mock<I> m; m.Stub(&%s::data, 3);" % ("J" if bad else "I")
    if k == "overload":
        O = "struct I { %svirtual int f(int) = 0; virtual int f(const std::string &) const = 0; virtual int f(double, int) = 0; };" % more
        g = ["OverloadedMethod(m, f, int(int))", "ConstOverloadedMethod(m, f, int(const std::string &))", "OverloadedMethod(m, f, int(double, int))"]
        b = ["OverloadedMethod(m, f, int(long))", "ConstOverloadedMethod(m, f, int(int))", "OverloadedMethod(m, f, int(const std::string &))", "OverloadedMethod(m, f, void(int))",
             "RefOverloadedMethod(m, f, int(int))", "OverloadedMethod(m, f, int(int, double))"]
        m = b[form % len(b)] if bad else g[form % len(g)]
        return O, "Mock<I> m; When(%s).Return(1);" % m
    if k == "dtor":
        return D, "Mock<I> m; When(Dtor(m)).%s;" % (["Return(1)", "Do([](int) {})", "AlwaysReturn(nullptr)"][form % 3] if bad else ["Return()", "Do([]() {})", "AlwaysReturn()"][form % 3])
    if k == "mock":
        st = ["Method(m, nothing)", "Method(m, other)", "Method(m, data)"][form % 3] if bad else "Method(m, g)"
        return D, "Mock<I> m; When(%s).Return(1);" % st
    raise ValueError(k)


def text(us, bad):
    """a program with these requests in either form"""
    t = [HEAD]
    for n, u in enumerate(us):
        t.append("namespace unit%d {\n%s\nvoid run() { %s }\n}\n" % ((n,) + body(u, bad)))
    return "".join(t) + "int main() { return 0; }\n"


def code(u):
    return "%s\nrejected: %s\naccepted: %s" % ((body(u, True)) + (body(u, False)[1],))


def labels(u):
    return [u["kind"]]


BATCH = 8   # corrected requests compiled as one program


def parse(r, program, cfg, tag):
    """-> True when the compiler accepts the program, and its output"""
    from run import CONFIGS, includes
    src = core.write(r, program, tag)
    base = CONFIGS[cfg].split()
    p = subprocess.run(base + ["-w", "-fsyntax-only"] + includes() + src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    out = p.stdout.decode("utf-8", "replace")
    if p.returncode != 0 and "error:" not in out:
        from run import CheckError
        raise CheckError("compiler failed: " + out[-2000:])
    return p.returncode == 0, out


def check(r, configs, count, deadline):
    from run import JOBS, CheckError, header_compiles
    rng = random.Random("%s/%s" % (r.pid, r.seed))
    groups = []
    for k in range(count // BATCH):
        groups.append((configs[k % len(configs)], [gen(rng, r.quick) for _ in range(BATCH)]))
    end = time.time() + deadline
    r.planned += 2 * BATCH * len(groups)
    jobs = []
    for k, (cfg, us) in enumerate(groups):
        jobs.append((cfg, us, False, "good-%d" % k))
        jobs.extend((cfg, [u], True, "bad-%d-%d" % (k, i)) for i, u in enumerate(us) if only(u, cfg))

    def go(job):
        if time.time() > end:
            return job, None
        try:
            ok, out = parse(r, text(job[1], job[2]), job[0], job[3])
        except subprocess.TimeoutExpired:
            return job, None
        return job, (ok == (not job[2]), out)

    wrong = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for (cfg, us, bad, tag), res in ex.map(go, jobs):
            if res is None:
                r.notes.append("%s not compiled before the deadline" % tag)
            elif not res[0]:
                wrong.append((cfg, us, bad))
            else:
                labels_ = {}
                for u in us:
                    for l in labels(u):
                        l += " rejected" if bad else " accepted"
                        labels_[l] = labels_.get(l, 0) + 1
                r.add(len(us), [hashlib.sha1((cfg + code(u)).encode()).hexdigest()[:14] for u in us] if bad else [], labels_, [code(us[0])] if tag.startswith("bad-0-") else [])
    for cfg, us, bad in wrong:
        ok, out = header_compiles(r.tmp, cfg)
        if not ok:
            raise CheckError("header does not compile (%s): %s" % (cfg, out[:2000]))
        for u in us:
            again = [parse(r, text([v], bad), cfg, "again") for v in (u, u)]
            if all(a[0] == bad for a in again):
                smallest = u
                for v in reductions(u):   # one at a time, as far as it goes
                    if code(v) != code(smallest) and only(v, cfg) and parse(r, text([v], bad), cfg, "small")[0] == bad:
                        smallest = v
                        break
                r.report("property %s\n--- failure ---\n%s\n%s\n--- configuration ---\n%s\nprogram\nflags -fsyntax-only\nexpected %s\nreplay with: python3 run.py %s --replay <this file>\n--- program (minimised) ---\n%s"
                         % (r.pid, "the compiler accepts a request that cannot be carried out" if bad else "the compiler rejects a correct request", again[0][1][:6000], cfg, "rejected" if bad else "accepted", r.pid, text([smallest], bad)))
                return
        raise CheckError("result of the compiler could not be reproduced (%s)" % cfg)


def reductions(u):
    for p in range(len(u["params"])):
        yield dict(u, params=[u["params"][p]], pos=0, pick=[u["pick"][p], u["pick"][-1]], before=0)
    yield dict(u, before=0)


def replay(r, t):
    cfg = t.split("--- configuration ---\n")[1].split("\n")[0]
    want = t.split("\nexpected ")[1].split("\n")[0]
    ok, out = parse(r, t.split("--- program (minimised) ---\n", 1)[1], cfg, "replay")
    print("accepted" if ok else "rejected\n" + out[:3000])
    return 0 if ok == (want == "accepted") else 1
