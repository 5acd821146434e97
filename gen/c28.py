"""C28: a history spread over several translation units gives the same results as the model of the history."""
import copy

CONST = 3   # methods per interface: a(int), b(const std::string &), c()


def gen(rng, quick):
    units = rng.randint(2, 4)
    mocks = rng.randint(1, 3)
    ops, nid = [], 1
    for j in range(mocks):
        ops.append(["new", rng.randrange(units), j])
    home = [op[1] for op in ops]
    for _ in range(rng.randint(8, 24)):
        t, j = rng.randrange(units), rng.randrange(mocks)
        k = rng.choice(["stub", "stub", "call", "call", "call", "call", "call", "verify", "verify", "order", "order", "nomore", "listen", "unlisten", "format", "reset", "clear", "fail", "fresh", "odd"])
        f = rng.randrange(CONST)
        if k == "stub":
            # all stubbing of a mock stays in the unit that made it
            ops.append([k, home[j], j, f, nid, rng.choice(["always", "always", "times", "cond", "cond"]), rng.randint(1, 3)])
        elif k == "call":
            ops.append([k, t, j, f, rng.randint(0, 2), rng.randrange(units)])
        elif k == "verify":
            ops.append([k, t, j, f, rng.choice([None, None, 0, 1, 2])])
        elif k == "order":
            ops.append([k, t, j, f, rng.randrange(mocks), rng.randrange(CONST)])
        elif k == "odd":
            ops.append([k, t, j, rng.randrange(units)])
        elif k == "fail":
            ops.append([k, t, j, f, rng.randrange(units)])
        elif k in ("nomore", "reset", "clear"):
            ops.append([k, t, j])
        elif k == "fresh":
            ops.append(["destroy", t, j])
            home[j] = rng.randrange(units)
            ops.append(["new", home[j], j])
        else:
            ops.append([k, t])
        nid += 1
    return {"units": units, "mocks": mocks, "ops": ops}


NAME = "abc"
ARG = ["%d", 'text(%d)', ""]


def model(u):
    """-> list of (unit, code) for every operation"""
    stubs, hist, bound, out = {}, [], set(), []
    serial = 0
    listeners, custom = 0, False
    for k, op in enumerate(u["ops"]):
        w, t = op[0], op[1]
        m = "(*s.m%d)" % op[2] if len(op) > 2 else ""
        what = "op %d %s" % (k, w)
        if w == "new":
            j = op[2]
            stubs[j] = [[], [], []]
            hist = [h for h in hist if h["mock"] != j]
            # every method is stubbed at home, so that naming it elsewhere does not bind it
            body = ["s.m%d.reset(new Mock<I>());" % j]
            for f in range(CONST):
                body.append("When(Method(%s, %s)).AlwaysDo(Answer%d{%d});" % (m, NAME[f], f, 1000 * (j + 1) + f))
                stubs[j][f].append({"cond": None, "left": -1, "id": 1000 * (j + 1) + f})
            out.append((t, body))
        elif w == "destroy":
            hist = [h for h in hist if h["mock"] != op[2]]
            out.append((t, ["s.m%d.reset();" % op[2]]))
        elif w == "stub":
            _, _, j, f, nid, form, n = op
            if f == 2 and form == "cond":
                form = "always"
            if form == "always":
                out.append((t, ["When(Method(%s, %s)).AlwaysDo(Answer%d{%d});" % (m, NAME[f], f, nid)]))
                stubs[j][f].append({"cond": None, "left": -1, "id": nid})
            elif form == "times":
                out.append((t, ["When(Method(%s, %s)).Do(%d_Times(Answer%d{%d})).AlwaysDo(Answer%d{%d});" % (m, NAME[f], n, f, nid, f, nid + 500)]))
                stubs[j][f].append({"cond": None, "left": n, "id": nid, "then": nid + 500})
            else:
                x = n - 1
                out.append((t, ["When(Method(%s, %s).Using(%s)).AlwaysDo(Answer%d{%d});" % (m, NAME[f], ARG[f] % x, f, nid)]))
                stubs[j][f].append({"cond": x, "left": -1, "id": nid})
        elif w == "call":
            _, _, j, f, x, via = op
            s = [q for q in stubs[j][f] if q["cond"] is None or q["cond"] == x][-1]
            if s["left"] == 0:
                got = s["then"]
            else:
                got = s["id"]
                if s["left"] > 0:
                    s["left"] -= 1
            serial += 1
            hist.append({"mock": j, "f": f, "x": x if f < 2 else 0, "verified": False})
            # the call itself is made by unit 'via' on behalf of unit t
            out.append((t, ['eq("%s", unit%d_call(s.m%d->get(), %d, %d), "answer %d");' % (what, via, j, f, x, got)]))
        elif w == "verify":
            _, _, j, f, x = op
            hits = [h for h in hist if h["mock"] == j and h["f"] == f and (x is None or f == 2 or h["x"] == x)]
            pat = "Method(%s, %s)" % (m, NAME[f]) + (".Using(%s)" % (ARG[f] % x) if x is not None and f < 2 else "")
            for h in hits:
                h["verified"] = True
            out.append((t, ['ok("%s", Verify(%s).Exactly(%d));' % (what, pat, len(hits))]))
        elif w == "order":
            _, _, j, f, j2, f2 = op
            seen = [h for h in hist if h["mock"] in (j, j2)]
            n, i = 0, 0
            hits = []
            while i + 1 < len(seen):
                if (seen[i]["mock"], seen[i]["f"], seen[i + 1]["mock"], seen[i + 1]["f"]) == (j, f, j2, f2):
                    n += 1
                    hits += [seen[i], seen[i + 1]]
                    i += 2
                else:
                    i += 1
            for h in hits:
                h["verified"] = True
            out.append((t, ['ok("%s", Verify(Method(%s, %s) + Method((*s.m%d), %s)).Exactly(%d));' % (what, m, NAME[f], j2, NAME[f2], n)]))
        elif w == "nomore":
            left = [h for h in hist if h["mock"] == op[2] and not h["verified"]]
            out.append((t, ['eq("%s", outcome([&]() -> std::string { VerifyNoOtherInvocations(%s); return "passed"; }), "%s");' % (what, m, "no more failed" if left else "passed"),
                            'eq("%s: events", s.taken(), "%s");' % (what, "no more;" * listeners if left else "")]))
        elif w == "fail":
            # the failure is thrown in unit t and caught in another unit
            _, _, j, f, other = op
            n = len([h for h in hist if h["mock"] == j and h["f"] == f])
            out.append((other, ['std::string text = thrownBy([&] { unit%d_fail(%d, s); });' % (t, k),
                                'eq("%s", text, std::string("%s"));' % (what, "custom" if custom else "FILE unit%d sequence" % t),
                                'eq("%s: events", s.taken(), "%s");' % (what, "sequence;" * listeners)]))
            out[-1] += ((t, "case %d: Verify(Method(%s, %s)).Exactly(%d); break;" % (k, m, NAME[f], n + 1)),)
        elif w == "odd":
            # a method nobody stubbed
            out.append((t, ['eq("%s", outcome([&]() -> std::string { return unit%d_call(s.m%d->get(), 3, 0); }), "unexpected");' % (what, op[3], op[2]),
                            'eq("%s: events", s.taken(), "%s");' % (what, "unmocked unknown();" * listeners)]))
        elif w == "listen":
            out.append((t, ["Fakeit.addEventHandler(s.events);"]))
            listeners += 1
        elif w == "unlisten":
            out.append((t, ["Fakeit.clearEventHandlers();"]))
            listeners = 0
        elif w == "format":
            custom = not custom
            out.append((t, ["Fakeit.setCustomEventFormatter(s.formatter);" if custom else "Fakeit.resetCustomEventFormatter();"]))
        elif w == "clear":
            hist = [h for h in hist if h["mock"] != op[2]]
            out.append((t, ["%s.ClearInvocationHistory();" % m]))
        elif w == "reset":
            hist = [h for h in hist if h["mock"] != op[2]]
            j = op[2]
            stubs[j] = [[], [], []]
            # bound again at home at once
            h = [o[1] for o in u["ops"][:k] if o[0] == "new" and o[2] == j][-1]
            body = ["%s.Reset();" % m]
            for f in range(CONST):
                body.append("When(Method(%s, %s)).AlwaysDo(Answer%d{%d});" % (m, NAME[f], f, 2000 + k))
                stubs[j][f].append({"cond": None, "left": -1, "id": 2000 + k})
            out.append((h, body))
    return out


def shared(u, ns):
    t = ["struct I { virtual ~I() {} virtual int a(int) = 0; virtual int b(const std::string &) = 0; virtual int c() = 0; virtual int d() = 0; };",
         "struct Answer0 { int id; int operator()(int) const { return id; } };",
         "struct Answer1 { int id; int operator()(const std::string &) const { return id; } };",
         "struct Answer2 { int id; int operator()() const { return id; } };",
         "const std::string &text(int n);",
         "struct CustomFormatter : EventFormatter {",
         '    std::string format(const UnexpectedMethodCallEvent &) override { return "custom"; }',
         '    std::string format(const SequenceVerificationEvent &) override { return "custom"; }',
         '    std::string format(const NoMoreInvocationsVerificationEvent &) override { return "custom"; }',
         "};",
         "struct State { std::unique_ptr<Mock<I>> m0, m1, m2; Events events; CustomFormatter formatter; std::string taken() { return events.take(); } ~State() { Fakeit.clearEventHandlers(); Fakeit.resetCustomEventFormatter(); } };",
         "std::string thrownBy(std::function<void()>);"]
    for i in range(u["units"]):
        t.append("std::string unit%d_call(I &, int f, int x); void unit%d_fail(int k, State &s); void unit%d_step(int k, State &s);" % (i, i, i))
    return "namespace %s {\n%s\n}\n" % (ns, "\n".join(t))


def unit_text(u, i, ns):
    steps = model(u)
    t = []
    t.append('std::string unit%d_call(I &i, int f, int x) { return "answer " + str(f == 0 ? i.a(x) : f == 1 ? i.b(text(x)) : f == 2 ? i.c() : i.d()); }' % i)
    t.append("void unit%d_fail(int k, State &s) { switch (k) {" % i)
    for st in steps:
        for extra in st[2:]:
            if extra[0] == i:
                t.append(extra[1])
    t.append("default: break; } }")
    t.append("void unit%d_step(int k, State &s) { switch (k) {" % i)
    for k, st in enumerate(steps):
        if st[0] == i:
            t.append("case %d: { %s break; }" % (k, "\n    ".join(st[1])))
    t.append("default: break; } }")
    return "namespace %s {\n%s\n}\n" % (ns, "\n".join(t))


def main_text(u, ns):
    steps = model(u)
    t = ['const std::string &text(int n) { static const std::string t[] = {"zero", "one", "two"}; return t[n]; }',
         "std::string thrownBy(std::function<void()> f) {",
         "    try { f(); } catch (const SequenceVerificationException &e) {",
         '        std::string s = e.what();',
         '        for (int i = 0; i < 4; i++) if (s.find("unit" + str(i) + ".cpp:") != std::string::npos && s.find("Verification error") != std::string::npos) return "FILE unit" + str(i) + " sequence";',
         '        return s.size() >= 6 && s.substr(s.size() - 6) == "custom" ? "custom" : s;',
         '    } catch (...) { return "something else"; }',
         '    return "nothing";',
         "}",
         "void run() { State s;"]
    for k, st in enumerate(steps):
        t.append("    unit%d_step(%d, s);" % (st[0], k))
    t.append("}")
    return "namespace %s {\n%s\n}\n" % (ns, "\n".join(t))


def code(u):
    return "%d units, %d mocks: %s" % (u["units"], u["mocks"], u["ops"])


def program(us):
    """files separated by marker lines"""
    head = '#include "kinds.hpp"\n'
    out = ['//// FILE shared.hpp\n#pragma once\n' + head + "".join(shared(u, "unit_%d" % n) for n, u in enumerate(us))]
    for i in range(max(u["units"] for u in us)):
        out.append('//// FILE unit%d.cpp\n#include "shared.hpp"\n' % i + "".join(unit_text(u, i, "unit_%d" % n) for n, u in enumerate(us) if i < u["units"]))
    out.append('//// FILE main.cpp\n#include "shared.hpp"\n' + "".join(main_text(u, "unit_%d" % n) for n, u in enumerate(us)))
    out.append("int main() { return runCases({%s}); }\n" % ", ".join("unit_%d::run" % n for n in range(len(us))))
    return "".join(out)


def nontrivial(u):
    return len({op[1] for op in u["ops"] if op[0] in ("stub", "new", "call", "verify", "order", "fail")}) >= 2


def labels(u):
    return ["%d translation units" % u["units"], "%d mocks" % u["mocks"]]


def reductions(u):
    for i in range(len(u["ops"])):
        if u["ops"][i][0] in ("new", "destroy"):
            continue
        v = copy.deepcopy(u)
        del v["ops"][i]
        yield v
    if u["units"] > 2:
        v = copy.deepcopy(u)
        v["units"] -= 1
        for op in v["ops"]:
            op[1] = min(op[1], v["units"] - 1)
            if op[0] == "call":
                op[5] = min(op[5], v["units"] - 1)
            if op[0] == "odd":
                op[3] = min(op[3], v["units"] - 1)
            if op[0] == "fail":
                op[4] = min(op[4], v["units"] - 1)
        yield v
