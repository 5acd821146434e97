// C20: a statement left by an exception has no effect.
#include "fk.hpp"
#include <array>

// Value whose n-th copy throws (n set by arm()); also used as callable, predicate and expected value.
static int fuse = -1, fuseCode = 0;
static void arm(int n, int code) { fuse = n; fuseCode = code; }
static bool disarm() { bool burnt = fuse == 0; fuse = -1; return burnt; }
static void spark() { if (fuse > 0 && --fuse == 0) throw UserError(fuseCode); }
struct Bomb {
    int v; std::string pad;
    explicit Bomb(int n) : v(n), pad(40, 'x') {}
    Bomb(const Bomb &o) : v(o.v), pad(o.pad) { spark(); }
    Bomb(Bomb &&o) noexcept : v(o.v), pad(std::move(o.pad)) {}
    Bomb &operator=(const Bomb &o) { spark(); v = o.v; pad = o.pad; return *this; }
    bool operator==(const Bomb &o) const { return v == o.v && pad == o.pad; }
};
inline std::ostream &operator<<(std::ostream &s, const Bomb &b) { return s << "bomb" << b.v; }
template<class R> struct BombCall {   // callable whose copies spark
    Bomb b;
    explicit BombCall(int v) : b(v) {}
    R operator()(int) const { return R(b.v); }
    R operator()(const Bomb &) const { return R(b.v); }
};
struct BombPred {
    Bomb b;
    bool sparkOnUse;
    BombPred(int v, bool s) : b(v), sparkOnUse(s) {}
    bool operator()(int x) const { if (sparkOnUse) spark(); return x == b.v; }
    bool operator()(const Bomb &x) const { if (sparkOnUse) spark(); return x.v == b.v; }
};
static int boom(int v, bool now, int code) { if (now) throw UserError(code); return v; }

struct I {
    virtual Bomb r(int) = 0;           // 0
    virtual int g(Bomb) = 0;           // 1
    virtual int h(int) = 0;            // 2
};
static const char *const mname[] = {"r", "g", "h"};

struct Log : fakeit::EventHandler {
    std::string text;
    void handle(const UnexpectedMethodCallEvent &) override { text += "U"; }
    void handle(const SequenceVerificationEvent &) override { text += "S"; }
    void handle(const NoMoreInvocationsVerificationEvent &) override { text += "N"; }
    std::string take() { std::string s = text; text.clear(); return s; }
};

struct Stub { int m; int cond; std::vector<int> acts; bool always; size_t pos; };   // cond -1: any; else value of the argument
struct CallM { int m, x; bool verified; };

// Method(...) of method m, optionally with .Using(value) / .Matching(...), handed to f
static std::string okText(bool b) { return b ? "pass" : "fail"; }

struct World {
    pbt::Ctx &c;
    Mock<I> mock;
    std::vector<Stub> stubs;
    std::vector<CallM> calls;
    bool bound[3] = {false, false, false};
    Log log;
    int next = 1, cancelled = 0, effective = 0;
    explicit World(pbt::Ctx &ctx) : c(ctx) { Fakeit.addEventHandler(log); }
    ~World() { Fakeit.clearEventHandlers(); fuse = -1; }

    std::string realCall(int m, int x) {
        return outcome([&]() -> std::string {
            I &i = mock.get();
            if (m == 0) { Bomb b = i.r(x); return cat("ret ", b.v); }
            if (m == 1) return cat("ret ", i.g(Bomb(x)));
            return cat("ret ", i.h(x));
        });
    }
    std::string modelCall(int m, int x) {
        for (size_t k = stubs.size(); k-- > 0;) {
            Stub &s = stubs[k];
            if (s.m != m || (s.cond >= 0 && s.cond != x)) continue;
            calls.push_back(CallM{m, x, false});
            if (s.pos >= s.acts.size()) return "unexpected";
            int v = s.acts[s.pos];
            if (!(s.always && s.pos + 1 == s.acts.size())) s.pos++;
            return cat("ret ", v);
        }
        return "unexpected";
    }
    void call(int m, int x) {
        std::string got = realCall(m, x), want = modelCall(m, x);
        c.log(cat("call ", mname[m], "(", x, ") -> ", got));
        c.eq(got, want, cat("call of ", mname[m]));
        c.eq(log.take(), want == "unexpected" ? "U" : "", "notifications of a call");
    }
    int count(int m, int cond) {
        int n = 0;
        for (auto &k : calls) if (k.m == m && (cond < 0 || k.x == cond)) n++;
        return n;
    }
    // a statement that may be cancelled: runs f, with the fuse armed
    template<class F, class G> void statement(const std::string &text, int burn, int code, F f, G effect) {
        arm(burn, code);
        std::string got = outcome([&]() -> std::string { f(); return "done"; });
        fuse = -1;
        c.log(cat(text, burn > 0 ? cat("   [copy ", burn, " throws]") : "", " -> ", got));
        if (got == cat("throw UserError ", code)) { cancelled++; c.eq(log.take(), "", "notifications of a cancelled statement"); return; }
        c.eq(got, "done", "outcome of a statement");
        effect();
    }
    void stubStatement() {
        Stub s; s.pos = 0; s.m = c.range(0, 2); s.cond = c.chance(1, 2) ? c.range(0, 2) : -1; s.always = c.chance(1, 3);
        int burn = c.chance(2, 3) ? c.range(1, 9) : 0, code = 1000 + next++;
        bool late = c.chance(1, 5);   // an argument of the last link throws
        int form = c.range(0, 4);
        std::string t;
        auto value = [&] { s.acts.push_back(next); return next++; };
        int m = s.m;
        int a, b;
        auto run = [&](const char *name, const std::function<void()> &f) {
            t = cat(name, " of ", mname[m], s.cond >= 0 ? cat("(", s.cond, ")") : "", late ? " with a throwing argument" : "");
            statement(t, burn, code, f, [&] { stubs.push_back(s); effective++; });
        };
        switch (form) {
            case 0: {   // values one after the other
                a = value(); b = value();
                bool always = s.always;
                run("When.Return.Return", [&] {
                    if (m == 0) {
                        if (s.cond >= 0) { if (always) When(Method(mock, r).Using(boom(s.cond, false, 0))).Return(Bomb(a)).AlwaysReturn(Bomb(boom(b, late, code))); else When(Method(mock, r).Using(s.cond)).Return(Bomb(a)).Return(Bomb(boom(b, late, code))); }
                        else { if (always) When(Method(mock, r)).Return(Bomb(a)).AlwaysReturn(Bomb(boom(b, late, code))); else When(Method(mock, r)).Return(Bomb(a)).Return(Bomb(boom(b, late, code))); }
                    } else if (m == 1) {
                        Bomb e(s.cond);
                        if (s.cond >= 0) { if (always) When(Method(mock, g).Using(e)).Return(a).AlwaysReturn(boom(b, late, code)); else When(Method(mock, g).Using(e)).Return(a).Return(boom(b, late, code)); }
                        else { if (always) When(Method(mock, g)).Return(a).AlwaysReturn(boom(b, late, code)); else When(Method(mock, g)).Return(a).Return(boom(b, late, code)); }
                    } else {
                        if (s.cond >= 0) { if (always) When(Method(mock, h).Using(s.cond)).Return(a).AlwaysReturn(boom(b, late, code)); else When(Method(mock, h)(s.cond)).Return(a).Return(boom(b, late, code)); }
                        else { if (always) When(Method(mock, h)).Return(a).AlwaysReturn(boom(b, late, code)); else When(Method(mock, h)).Return(a).Return(boom(b, late, code)); }
                    }
                });
                break;
            }
            case 1: {   // list of values, counts
                a = value(); b = value();
                s.always = false;
                if (m == 0) { s.acts.push_back(b); }
                run("When.Return(list)", [&] {
                    if (m == 0) { if (s.cond >= 0) When(Method(mock, r)(s.cond)).Return(1_Time(Bomb(a)), 2_Times(Bomb(boom(b, late, code)))); else When(Method(mock, r)).Return(1_Time(Bomb(a)), 2_Times(Bomb(boom(b, late, code)))); }
                    else if (m == 1) { Bomb e(s.cond); if (s.cond >= 0) When(Method(mock, g).Using(Eq(e))).Return(a, boom(b, late, code)); else When(Method(mock, g)).Return(a, boom(b, late, code)); }
                    else { if (s.cond >= 0) When(Method(mock, h).Using(Eq(s.cond))).Return(a, boom(b, late, code)); else When(Method(mock, h)).Return(a, boom(b, late, code)); }
                });
                break;
            }
            case 2: {   // callables
                a = value(); b = value();
                bool always = s.always;
                run("When.Do", [&] {
                    if (m == 0) {
                        BombCall<Bomb> x(a), y(b);
                        BombPred p(s.cond, false);
                        if (s.cond >= 0) { if (always) When(Method(mock, r).Matching(p)).Do(x).AlwaysDo((boom(0, late, code), y)); else When(Method(mock, r).Matching(p)).Do(x, (boom(0, late, code), y)); }
                        else { if (always) When(Method(mock, r)).Do(x).AlwaysDo((boom(0, late, code), y)); else When(Method(mock, r)).Do(x).Do((boom(0, late, code), y)); }
                    } else if (m == 1) {
                        BombCall<int> x(a), y(b);
                        BombPred p(s.cond, false);
                        if (s.cond >= 0) { if (always) When(Method(mock, g).Matching(p)).Do(x).AlwaysDo((boom(0, late, code), y)); else When(Method(mock, g)(p)).Do(x, (boom(0, late, code), y)); }
                        else { if (always) When(Method(mock, g)).Do(x).AlwaysDo((boom(0, late, code), y)); else When(Method(mock, g)).Do(x).Do((boom(0, late, code), y)); }
                    } else {
                        BombCall<int> x(a), y(b);
                        BombPred p(s.cond, false);
                        if (s.cond >= 0) { if (always) When(Method(mock, h).Matching(p)).Do(x).AlwaysDo((boom(0, late, code), y)); else When(Method(mock, h).Matching(p)).Do(x, (boom(0, late, code), y)); }
                        else { if (always) When(Method(mock, h)).Do(x).AlwaysDo((boom(0, late, code), y)); else When(Method(mock, h)).Do(x).Do((boom(0, late, code), y)); }
                    }
                });
                break;
            }
            case 3: {   // assignment
                a = value();
                s.always = true;
                run("assignment", [&] {
                    if (m == 0) { BombCall<Bomb> x(a); if (s.cond >= 0) Method(mock, r).Using(s.cond) = (boom(0, late, code), x); else Method(mock, r) = (boom(0, late, code), x); }
                    else if (m == 1) { BombCall<int> x(a); Bomb e(s.cond); if (s.cond >= 0) Method(mock, g).Using(e) = (boom(0, late, code), x); else Method(mock, g) = (boom(0, late, code), x); }
                    else { if (s.cond >= 0) Method(mock, h)(s.cond) = boom(a, late, code); else Method(mock, h) = boom(a, late, code); }
                });
                break;
            }
            default: {   // several methods in one statement
                late = c.coin();
                t = cat("Fake(h, g", late ? " with a throwing condition)" : " with a condition)");
                int cond = s.cond >= 0 ? s.cond : 1;
                statement(t, burn, code, [&] { Bomb e(cond); Fake(Method(mock, h), Method(mock, g).Using((boom(0, late, code), e))); }, [&] {
                    Stub x; x.m = 2; x.cond = -1; x.acts = {0}; x.always = true; x.pos = 0; stubs.push_back(x);
                    x.m = 1; x.cond = cond; stubs.push_back(x);
                    effective++;
                });
            }
        }
    }
    void verifyStatement() {
        int m = c.range(0, 2), cond = c.chance(1, 2) ? c.range(0, 2) : -1;
        int burn = c.chance(1, 2) ? c.range(1, 5) : 0, code = 1000 + next++;
        bool late = c.chance(1, 3);
        int n = count(m, cond), ask = n + (c.chance(1, 3) ? 1 : 0);
        std::string result;
        int form = c.range(0, 3);
        bool asBool = form == 3;
        // forms 0: count argument throws, 1: expected value copied, 2: predicate throws while matching, 3: boolean, then throws
        std::string t = cat("Verify(", mname[m], cond >= 0 ? cat("(", cond, ")") : "", ") ", ask, " times, form ", form, late ? " with a throwing argument" : "");
        statement(t, burn, code, [&] {
            result = "pass";
            try {
                Bomb e(cond);
                BombPred p(cond, form == 2);
                bool use = cond >= 0;
                if (form == 2 && use) {
                    if (m == 0) Verify(Method(mock, r).Matching(p)).Exactly(boom(ask, late, code));
                    else if (m == 1) Verify(Method(mock, g).Matching(p)).Exactly(boom(ask, late, code));
                    else Verify(Method(mock, h).Matching(p)).Exactly(boom(ask, late, code));
                } else if (asBool) {
                    bool ok;
                    if (m == 0) ok = use ? (bool) Verify(Method(mock, r).Using(cond)).Exactly(boom(ask, late, code)) : (bool) Verify(Method(mock, r)).Exactly(boom(ask, late, code));
                    else if (m == 1) ok = use ? (bool) Verify(Method(mock, g).Using(e)).Exactly(boom(ask, late, code)) : (bool) Verify(Method(mock, g)).Exactly(boom(ask, late, code));
                    else ok = use ? (bool) Verify(Method(mock, h).Using(cond)).Exactly(boom(ask, late, code)) : (bool) Verify(Method(mock, h)).Exactly(boom(ask, late, code));
                    result = ok ? "pass" : "boolfail";
                } else {
                    if (m == 0) { if (use) Verify(Method(mock, r).Using(cond)).Exactly(boom(ask, late, code)); else Verify(Method(mock, r) * boom(1, false, 0)).Exactly(boom(ask, late, code)); }
                    else if (m == 1) { if (use) Verify(Method(mock, g).Using(e)).Exactly(boom(ask, late, code)); else Verify(Method(mock, g)).Exactly(boom(ask, late, code)); }
                    else { if (use) Verify(Method(mock, h)(cond)).Exactly(boom(ask, late, code)); else Using(mock).Verify(Method(mock, h)).Exactly(boom(ask, late, code)); }
                }
            } catch (const SequenceVerificationException &) { result = "fail"; }
        }, [&] {
            bool pass = ask == n;
            c.eq(result, pass ? "pass" : asBool ? "boolfail" : "fail", "verdict");
            c.eq(log.take(), !pass && !asBool ? "S" : "", "notifications of a verification");
            if (pass) for (auto &k : calls) if (k.m == m && (cond < 0 || k.x == cond)) k.verified = true;
        });
    }
    // the rest of the statement throws after the verification object was made
    void verifyThenThrow() {
        int m = c.range(0, 2), ask = c.range(0, 2), code = 1000 + next++;
        bool late = c.chance(3, 4);
        int form = c.range(0, 2);
        std::string result;
        statement(cat(form == 0 ? "VerifyNoOtherInvocations(mock)" : form == 1 ? cat("Verify(", mname[m], ").Exactly(", ask, ")") : cat("Unverified.Verify(", mname[m], ")"), ", f()", late ? " where f throws" : ""), 0, code, [&] {
            result = "pass";
            try {
                switch (form) {
                    case 0: VerifyNoOtherInvocations(mock), boom(0, late, code); break;
                    case 1:
                        if (m == 0) Verify(Method(mock, r)).Exactly(ask), boom(0, late, code);
                        else if (m == 1) Verify(Method(mock, g)).Exactly(ask), boom(0, late, code);
                        else Verify(Method(mock, h)).Exactly(ask), boom(0, late, code);
                        break;
                    default:
                        if (m == 0) Unverified.Verify(Method(mock, r)), boom(0, late, code);
                        else if (m == 1) Unverified.Verify(Method(mock, g)), boom(0, late, code);
                        else Unverified.Verify(Method(mock, h)), boom(0, late, code);
                }
            } catch (const SequenceVerificationException &) { result = "fail"; } catch (const NoMoreInvocationsVerificationException &) { result = "fail"; }
        }, [&] {
            bool pass;
            int n = 0;
            if (form == 0) { pass = true; for (auto &k : calls) if (!k.verified) pass = false; }
            else {
                for (auto &k : calls) if (k.m == m && (form == 1 || !k.verified)) n++;
                pass = form == 1 ? n == ask : n >= 1;
                if (pass) for (auto &k : calls) if (k.m == m) k.verified = true;
            }
            c.eq(result, okText(pass), "verdict");
            c.eq(log.take(), pass ? "" : form == 0 ? "N" : "S", "notifications of a verification");
        });
    }
    // one context kept in a variable and used by several statements, some of which are cancelled
    template<class R, class A, class Ctx> void storedStatements(Ctx &ctx, int m, int cond) {
        int n = 0;
        while (n < 6 && c.more(3)) {
            n++;
            pbt::Span sp(c);
            int kind = c.range(0, 9), x = c.range(0, 2), code = 1000 + next++;
            int burn = c.chance(1, 2) ? c.range(1, 6) : 0;
            bool late = c.chance(1, 3);
            Stub s; s.m = m; s.cond = cond; s.pos = 0; s.always = false;
            int a = next++, b = next++;
            s.acts = {a, b};
            std::string t = cat("stored ", mname[m], cond >= 0 ? cat("(", cond, ")") : "", late ? " with a throwing argument: " : ": ");
            auto effect = [&] { stubs.push_back(s); effective++; };
            BombCall<R> f(a), g(b);
            auto last = [&]() -> const BombCall<R> & { boom(0, late, code); return g; };
            switch (kind) {
                case 0: call(m, x); break;
                case 1: statement(t + "When.Return.Return", burn, code, [&] { When(ctx).Return(R(a)).Return(R(boom(b, late, code))); }, effect); break;
                case 2: statement(t + "When.Do.Do", burn, code, [&] { When(ctx).Do(f).Do(last()); }, effect); break;
                case 3: statement(t + "When.Do(list)", burn, code, [&] { When(ctx).Do(f, last()); }, effect); break;
                case 4: s.always = true; statement(t + "When.Do.AlwaysDo", burn, code, [&] { When(ctx).Do(f).AlwaysDo(last()); }, effect); break;
                case 5: s.always = true; s.acts = {b}; statement(t + "assignment", burn, code, [&] { ctx = last(); }, effect); break;
                case 8: case 9: {   // the condition changes, unless that is cancelled
                    A y(x);
                    BombPred p(x, false);
                    statement(cat(t, kind == 8 ? "Using(" : "Matching(", x, ")"), burn, code, [&] {
                        boom(0, late, code);
                        if (kind == 8) ctx.Using(y); else ctx.Matching(p);
                    }, [&] { cond = x; });
                    break;
                }
                case 7: statement(t + "kept When, Return, Return", burn, code, [&] { auto w = When(ctx); w.Return(R(a)); w.Return(R(boom(b, late, code))); }, effect); break;
                case 6: {
                    int k = count(m, cond), ask = k + (c.chance(1, 3) ? 1 : 0);
                    bool ok = false;
                    statement(t + "Verify", 0, code, [&] { ok = Verify(ctx).Exactly(boom(ask, late, code)); }, [&] {
                        c.eq(ok, ask == k, "verdict");
                        if (ok) for (auto &y : calls) if (y.m == m && (cond < 0 || y.x == cond)) y.verified = true;
                    });
                    break;
                }
            }
        }
    }
    void storedContext() {
        int m = c.range(0, 2), cond = c.chance(1, 2) ? c.range(0, 2) : -1;
        if (m == 0) { auto ctx = Method(mock, r); if (cond >= 0) ctx.Using(cond); storedStatements<Bomb, int>(ctx, m, cond); }
        else if (m == 1) { auto ctx = Method(mock, g); if (cond >= 0) ctx.Using(Bomb(cond)); storedStatements<int, Bomb>(ctx, m, cond); }
        else { auto ctx = Method(mock, h); if (cond >= 0) ctx.Using(cond); storedStatements<int, int>(ctx, m, cond); }
    }
    // a statement kept by reference, which ends when an exception leaves its block
    void keptStatement() {
        int m = c.range(0, 2), form = c.range(0, 3), ask = c.range(0, 2), code = 1000 + next++;
        statement(cat("kept ", form == 0 ? "When" : form == 3 ? "VerifyNoOtherInvocations" : "Verify", form == 2 ? cat(".Exactly(", ask, ")") : "", form < 3 ? cat(" of ", mname[m]) : "", ", throw"), 0, code, [&] {
            switch (form) {
                case 0:
                    if (m == 0) { const auto &w = When(Method(mock, r)); boom((int) (&w == nullptr), true, code); }
                    else if (m == 1) { const auto &w = When(Method(mock, g)); boom((int) (&w == nullptr), true, code); }
                    else { const auto &w = When(Method(mock, h)); boom((int) (&w == nullptr), true, code); }
                    break;
                case 1:
                    if (m == 0) { const auto &v = Verify(Method(mock, r)); boom((int) (&v == nullptr), true, code); }
                    else if (m == 1) { const auto &v = Verify(Method(mock, g)); boom((int) (&v == nullptr), true, code); }
                    else { const auto &v = Verify(Method(mock, h)); boom((int) (&v == nullptr), true, code); }
                    break;
                case 2:
                    if (m == 0) { auto v = Verify(Method(mock, r)).Exactly(ask); boom(0, true, code); (void) v; }
                    else if (m == 1) { auto v = Verify(Method(mock, g)).Exactly(ask); boom(0, true, code); (void) v; }
                    else { auto v = Verify(Method(mock, h)).Exactly(ask); boom(0, true, code); (void) v; }
                    break;
                default: { const auto &v = VerifyNoOtherInvocations(mock); boom((int) (&v == nullptr), true, code); }
            }
        }, [] {});
    }
    // the state as seen by later statements
    void audit(bool withCalls) {
        bool all = true;
        for (auto &k : calls) if (!k.verified) all = false;
        c.eq(okText(VerifyNoOtherInvocations(mock)), okText(all), "no other invocations");
        if (!withCalls) return;
        for (int m = 0; m < 3; m++) for (int x = 0; x < 3; x++) {
            bool hasStub = bound[m];
            for (auto &s : stubs) if (s.m == m) hasStub = true;
            if (!hasStub) continue;
            call(m, x); call(m, x); call(m, x); call(m, x);
        }
    }
};

static void oneCase(pbt::Ctx &c) {
    World w(c);
    int n = 0;
    while (n < 25 && c.more(8)) {
        n++;
        pbt::Span sp(c);
        switch (c.weighted({5, 5, 4, 1, 1, 2, 3, 2})) {
            case 0: w.call(c.range(0, 2), c.range(0, 2)); break;
            case 1: w.stubStatement(); break;
            case 2: w.verifyStatement(); break;
            case 5: w.verifyThenThrow(); break;
            case 6: w.storedContext(); break;
            case 7: w.keptStatement(); break;
            case 3: w.audit(false); break;
            case 4: w.mock.ClearInvocationHistory(); w.calls.clear(); c.log("ClearInvocationHistory()"); break;
        }
    }
    w.audit(true);
    c.label(w.cancelled == 0 ? "nothing cancelled" : w.cancelled == 1 ? "1 cancelled" : "several cancelled");
    c.nontrivialIf(w.cancelled >= 1 && (w.effective >= 1 || !w.calls.empty()));
}

PBT_MAIN("C20", oneCase)
