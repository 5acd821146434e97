// C24 (and C23): histories over a broad set of the public interface; the log of a case holds everything observable and
// is compared between builds. No oracle in here. With SHIPPED, inputs that meet later source fixes are left out.
#include "fakeit.hpp"
#include "pbt.hpp"
#include <deque>
#include <memory>
using namespace fakeit;
using pbt::cat;

struct Big {
    long a[5]; std::string t;
    explicit Big(int n = 0) : t(cat("big", n)) { for (int i = 0; i < 5; i++) a[i] = n + i; }
    bool operator==(const Big &o) const { return a[0] == o.a[0] && t == o.t; }
};
struct Opaque { int n; explicit Opaque(int x = 0) : n(x) {} bool operator==(const Opaque &o) const { return n == o.n; } };
enum Plain { P0, P1, P2 };
enum class Scoped { S0, S1, S2 };
struct Own {   // movable only; not printable under any standard
    std::unique_ptr<int> p; explicit Own(int n) : p(new int(n)) {}
};
struct Oops { int n; };

struct Api {
    int number; char text[12]; std::string str; double real;
    virtual int f(int) = 0;
    virtual void v(int) = 0;
    virtual std::string s(const std::string &, int) = 0;
    virtual int &r(int) = 0;
    virtual Big g(double, char) = 0;
    virtual std::unique_ptr<int> u(int) = 0;
    virtual int out(int *, std::string &, double) = 0;
    virtual bool b(const char *, unsigned char) = 0;
    virtual ~Api() {}
    virtual int k(int) const = 0;
    virtual int o(int) = 0;
    virtual int o(const std::string &) = 0;
    virtual void e(Plain, Scoped, Opaque) = 0;
    virtual int m(Own) = 0;
    virtual long double l(long long, unsigned long, float, bool) = 0;
};
struct Solid {
    int total; Solid() : total(0) {}
    virtual int add(int x) { total += x; return total; }
    virtual int twice(int x) { return add(x) + add(x); }
    virtual std::string name(const std::string &p) const { return p + cat(total); }
    virtual ~Solid() {}
};

static const std::string strings[] = {"", "a", "alpha", "Beta", "with \"quotes\"", "two\nlines"};
static const char *const cstrings[] = {"", "x", "xyz", "text", "b"};
static const double doubles[] = {0, 1.5, -2.25, 1e10, 0.1};
static int cells[4];
static double dcell[4] = {0, 1, 2.5, -1};

struct Adapter : EventHandler {
    std::string seen; bool quiet;
    Adapter() : quiet(false) {}
    template<class E> void take(const E &e) {
        DefaultEventFormatter d;
        std::string t = static_cast<EventFormatter &>(d).format(e);
        for (size_t i = t.find("0x"); i != std::string::npos; i = t.find("0x", i + 1)) {   // addresses differ
            size_t n = 2;
            while (i + n < t.size() && isxdigit((unsigned char) t[i + n])) n++;
            t.replace(i, n, "0x");
        }
        seen += t;
    }
    void handle(const UnexpectedMethodCallEvent &e) override { take(e); if (!quiet) throw Oops{1}; }
    void handle(const SequenceVerificationEvent &e) override { take(e); seen += cat("@", e.line()); if (!quiet) throw Oops{2}; }
    void handle(const NoMoreInvocationsVerificationEvent &e) override { take(e); seen += cat("@", e.line()); if (!quiet) throw Oops{3}; }
};

template<class F> static std::string trying(F f) {
    try { return f(); }
    catch (Oops &o) { return cat("Oops ", o.n); }
    catch (UnexpectedMethodCallException &) { return "UnexpectedMethodCallException"; }
    catch (std::exception &x) { return cat("std ", x.what()); }
    catch (std::string &x) { return "string " + x; }
    catch (int i) { return cat("int ", i); }
}
#define VOID(E) trying([&]() -> std::string { E; return "done"; })
#define VALUE(E) trying([&]() -> std::string { return cat(E); })

static std::string show(const Big &x) { return cat(x.t, "/", x.a[4]); }
static std::string show(const std::unique_ptr<int> &p) { return p ? cat("*", *p) : "null"; }
template<class T> static T &lv(T &&x) { return x; }

static std::string call(Api &a, int m, int x) {
    const Api &ca = a;
    static std::string ref; static int target;
    switch (m) {
        case 0: return VALUE(a.f(x));
        case 1: return VOID(a.v(x));
        case 2: return VALUE(a.s(strings[x % 6], x));
        case 3: return trying([&]() -> std::string { int &q = a.r(x); return cat(q, &q >= cells && &q < cells + 4 ? " cell" : ""); });
        case 4: return VALUE(show(a.g(doubles[x % 5], (char) ('a' + x))));
        case 5: return VALUE(show(a.u(x)));
        case 6: { ref = strings[x % 6]; target = x; std::string t = VALUE(a.out(&target, ref, doubles[x % 5])); return cat(t, " ", target, " ", ref); }
        case 7: return VALUE(a.b(cstrings[x % 5], (unsigned char) (x * 50)));
        case 8: return VALUE(ca.k(x));
        case 9: return VALUE(a.o(x));
        case 10: return VALUE(a.o(strings[x % 6]));
        case 11: return VOID(a.e((Plain) (x % 3), (Scoped) (x % 3), Opaque(x)));
        case 12: return VALUE(a.m(Own(x)));
        default: return VALUE((double) a.l(x * 1000000000000LL, (unsigned long) x, (float) dcell[x % 4], x % 2));
    }
}
enum { NM = 14 };

typedef Mock<Api> M;
#define O1(m) OverloadedMethod(m, o, int(int))
#define O2(m) OverloadedMethod(m, o, int(const std::string &))

static void stub(M &mock, int n, int x, int y) {
    switch (n) {
        case 0: When(Method(mock, f)).Return(x, y, x + y); break;
        case 1: When(Method(mock, f).Using(x)).AlwaysReturn(y); break;
        case 2: When(Method(mock, f)(x)).Return(2_Times(y), 3_Times(y + 1)); break;
        case 3: When(Method(mock, f).Matching([x](int a) { return a > x; })).Do([y](int a) { return a * y; }).AlwaysThrow(std::string("thrown")); break;
        case 4: When(Method(mock, f)).Throw(x, std::string("t"), Oops{7}).AlwaysReturn(y); break;
        case 5: Method(mock, f) = x; break;
        case 6: Method(mock, f).Using(Gt(x)) = [y](int a) { return a - y; }; break;
        case 7: Fake(Method(mock, v), Method(mock, b), O1(mock)); break;
        case 8: When(Method(mock, v)).Return(2_Times).Throw(y).AlwaysDo([](int a) { cells[3] = a; }); break;
        case 9: When(Method(mock, s)).Return(strings[x % 6]).AlwaysDo([](const std::string &p, int i) { return p + cat(i); }); break;
        case 10: When(Method(mock, s).Using(strings[x % 6], _)).Return("first", "second"); break;
        case 11: When(Method(mock, s).Using(Ge(std::string("alpha")), Le(y))).AlwaysReturn("matched"); break;
        case 12: When(Method(mock, r)).AlwaysReturn(cells[x % 4]); break;
        case 13: When(Method(mock, r).Using(Ne(x))).Return(cells[y % 4]).Return(cells[x % 4]); break;
        case 14: When(Method(mock, g)).Return(Big(x)).AlwaysReturn(Big(y)); break;
        case 15: When(Method(mock, g).Using(ApproxEq(1.5, 0.1), Any<char>())).AlwaysDo([](double d, char c) { return Big((int) d + c); }); break;
        case 16: When(Method(mock, u)).Return(std::unique_ptr<int>(new int(x))).Do([](int a) { return std::unique_ptr<int>(new int(a + 1)); }); break;
        case 17: When(Method(mock, out)).ReturnAndSet(int(x), int(y), strings[x % 6]).AlwaysReturnAndSet(int(y), int(x), std::string("set")); break;
        case 18: { using namespace fakeit::placeholders; When(Method(mock, out)).ReturnAndSet(int(x), _2 <= std::string("second"), _1 <= int(y)); break; }
        case 19: When(Method(mock, b).Using(StrNe("x"), Lt((unsigned char) 120))).AlwaysReturn(true); break;
        case 20: When(ConstOverloadedMethod(mock, k, int(int))).AlwaysReturn(x); break;
        case 21: When(Method(mock, k).Using(Ge(y))).Return(x).Throw(y); break;
        case 22: When(O1(mock)).AlwaysReturn(x); When(O2(mock)).AlwaysReturn(y); break;
        case 23: When(O2(mock).Using(strings[x % 6])).Return(5_Times(y)); break;
        case 24: Fake(Method(mock, e)); break;
        case 25: When(Method(mock, e).Using(Eq((Plain) (x % 3)), _, _)).Throw(std::runtime_error("enum")).AlwaysReturn(); break;
        case 26: When(Method(mock, m)).AlwaysDo([](Own &o) { return o.p ? *o.p : -1; }); break;
        case 27: Fake(Method(mock, l)); break;
        case 28: When(Method(mock, l).Using(Gt(0LL), _, _, true)).AlwaysReturn(2.5L); break;
        case 29: When(Method(mock, f).Using(x)).Return(y).Return(x); break;
        case 30: { M *p = &mock; When(Method(mock, f).Using(x)).AlwaysDo([p, y](int a) -> int { return a > 0 ? p->get().k(a) + y : y; }); break; }
        case 31: Fake(Dtor(mock)); break;
        case 32: When(Method(mock, f).Using(x)); break;
        case 33: When(Method(mock, f)).AlwaysReturn(); break;
        default: When(Method(mock, s)).Return(); When(Method(mock, g)).AlwaysReturn(Big(9)); break;
    }
}
enum { NS = 35 };

static bool verify(M &a, M &b, int n, int x, int y) {
    switch (n) {
        case 0: return Verify(Method(a, f)).Exactly(x);
        case 1: return Verify(Method(a, f).Using(x));
        case 2: return Verify(Method(a, f).Using(Gt(x))).AtLeast(y ? y : 1);
        case 3: return Verify(Method(a, f) + Method(b, f)).AtLeastOnce();
        case 4: return Verify(Method(a, f) * 2).Exactly(Once);
        case 5: return Verify((Method(a, f) + Method(a, v)) * 2, Method(a, f)).Exactly(1_Time);
        case 6: return Verify(Method(a, s).Using(_, x)).Twice();
        case 7: return Verify(Method(a, s).Using(strings[x % 6], Any())).Exactly(2_Times);
        case 8: return Verify(Method(a, v), Method(a, f)).Never();
        case 9: return Verify(Method(a, out).Using(Ne((int *) nullptr), _, Gt(0.5))).Once();
        case 10: return Verify(Method(a, b).Using("xyz", _)).AtLeast(1);
        case 11: return Verify(Method(a, e).Using(_, Scoped::S1, _)).Exactly(y);
        case 12: return Verify(O1(a), O2(a)).AtLeastOnce();
        case 13: return Verify(Method(a, f).Matching([x](int q) { return q % 2 == x % 2; })).Exactly(y);
        case 14: return Using(a, b).Verify(Method(a, f) + Method(b, f));
        case 15: return VerifyNoOtherInvocations(a);
        case 16: return VerifyNoOtherInvocations(a, b);
        case 17: return VerifyNoOtherInvocations(Method(a, f), Method(a, s));
        case 18: return Using(Unverified(a)).Verify(Method(a, f)).Exactly(x);
        case 19: return Verify(Method(a, g).Using(doubles[x % 5], _)).Exactly(y);
        case 20: return Verify(Method(a, l)).Exactly(y);
        case 21: return Verify(Method(a, k).Using(Le(x))).Exactly(y);
        default: return Verify(Method(a, v) + Method(b, v)).Exactly(y);
    }
}
enum { NV = 23 };

static void state(M &a, M &b, int n, int x, int y, Adapter &ad) {   // the same as statements
    switch (n) {
        case 0: Verify(Method(a, f)).Exactly(x); break;
        case 1: Verify(Method(a, f).Using(Gt(x)) + Method(b, f)).AtLeast(y ? y : 1); break;
        case 2: Verify(Method(a, s).Using(strings[x % 6], Lt(y))).Exactly(7); break;
        case 3: Verify(Method(a, e).Using(P1, _, Opaque(2)) * 3, Method(a, b).Using(StrGt("a"), Ge((unsigned char) 3))).Exactly(4_Times); break;
        case 4: Verify(Method(a, l).Using(x * 1000000000000LL, Ne(3ul), _, true), Method(a, g).Using(ApproxEq(2.0, 0.5), 'c')).AtLeastOnce(); break;
        case 5: VerifyNoOtherInvocations(a); break;
        case 6: VerifyNoOtherInvocations(a, b); break;
        case 7: Verify(Method(a, out).Using(_, std::string("Beta"), _), O2(a).Using(strings[1])).Never(); break;
        default: Using(a).Verify(Method(b, k).Using(Eq(3)), Method(a, f).Matching([](int) { return true; })).Exactly(2); break;
    }
    (void) ad;
}
enum { NST = 9 };

static int oops() { throw Oops{4}; }
static void abandon(M &a, M &b, int n, int x, int y) {   // statements left by an exception
    auto af = Method(a, f), bf = Method(b, f); auto av = Method(a, v); auto as = Method(a, s);   // named once before: the order of evaluation below is open
    (void) af; (void) bf; (void) av; (void) as;
    switch (n) {
        case 0: When(Method(a, f).Using(x)).Return(y).AlwaysReturn(oops()); break;
        case 1: Verify(Method(a, f)).Exactly(y + oops()); break;
        case 2: When(Method(a, v)).Throw(x).AlwaysThrow(oops()); break;
        case 3: Fake(Method(a, v), Method(a, f).Using(oops())); break;
        case 4: if (Verify(Method(a, f), Method(b, f)).AtLeast(1 + oops())) {} break;
        case 5: { auto c = Method(a, s).Using(strings[x], y); When(c).Return("abandoned").Return(strings[oops()]); break; }
        case 6: {
            struct Late { M &m; int v; ~Late() noexcept(false) { When(Method(m, f)).AlwaysReturn(v); } } late = {a, y};
            oops();
        }
        case 7: {
            struct Late { M &m; int v; ~Late() noexcept(false) { Verify(Method(m, f)).Exactly(v); VerifyNoOtherInvocations(m); } } late = {a, y};
            oops();
        }
        default: try { oops(); } catch (Oops &) { When(Method(a, f).Using(x)).Return(y + 50); Verify(Method(a, v)).AtLeast(y ? y : 1); }
    }
}

static void oneCase(pbt::Ctx &c) {
    Adapter adapter;
    Fakeit.setTestingFrameworkAdapter(adapter);
    struct Clean { ~Clean() { Fakeit.resetTestingFrameworkAdapter(); } } clean;
    for (int i = 0; i < 4; i++) cells[i] = i;
    {
    M mocks[2];
    Solid solid, other;
    std::unique_ptr<Mock<Solid>> spy(new Mock<Solid>(solid));
    bool spied[3] = {false, false, false};
    Solid *vol = &solid;
    asm volatile("" : "+r"(vol) : : "memory");
    bool dtor[2] = {false, false}, member[2] = {false, false};
    int ops = 0;
    bool warm = !c.chance(1, 3);
    while (ops < 60 && c.more(25)) {
        pbt::Span sp(c);
        ops++;
        int w = c.range(0, 1), x = c.range(0, 5), y = c.range(0, 5);
        M &a = mocks[w], &b = mocks[1 - w];
        std::string res;
        switch (warm && ops < 15 && !c.chance(1, 4) ? 0 : c.weighted({12, 20, 6, 4, 1, 1, 1, 4, 2, 1, 1, 1, 2})) {
            case 0: {
                int n = c.range(0, NS - 1);
                if (n == 31) dtor[w] = true;
#ifdef SHIPPED
                if (n == 17 || n == 18) n = 0;   // ReturnAndSet moves other arguments
#endif
                res = cat("stub ", n, " ", x, " ", y, ": ", VOID(stub(a, n, x, y)));
                break;
            }
            case 1: {
                int m = c.range(0, NM - 1);
#ifdef SHIPPED
                if (m == 2 || m == 4 || m == 5) m = 0;   // an unmocked method returning an object crashes
#endif
                res = cat("call ", m, " ", x, ": ", call(a.get(), m, x));
                break;
            }
            case 2: {
                int n = c.range(0, NV - 1);
#ifdef SHIPPED
                if (n == 3 || n == 4 || n == 5 || n == 8 || n == 12 || n == 14 || n == 22) n = 6;   // marking of incomplete occurrences
#endif
                res = cat("verify ", n, " ", x, " ", y, ": ", VALUE(verify(a, b, n, x, y)));
                break;
            }
            case 3: {
                int n = c.range(0, NST - 1);
#ifdef SHIPPED
                if (n == 1 || n == 3 || n == 4 || n == 7 || n == 8) n = 0;
#endif
                res = cat("statement ", n, " ", x, " ", y, ": ", VOID(state(a, b, n, x, y, adapter)));
                break;
            }
            case 4:
#ifndef SHIPPED
                a.Reset(); dtor[w] = member[w] = false; res = "reset";
#endif
                break;
            case 5:
#ifndef SHIPPED
                a.ClearInvocationHistory(); res = "clear";
#endif
                break;
            case 6: adapter.quiet = !adapter.quiet; res = "adapter"; break;
            case 7: {
                int n = c.range(0, 3);
                if (!spy) break;
                Mock<Solid> &s = *spy;
                if (n == 0) { Spy(Method(s, add)); spied[0] = true; }
                else if (n == 1) { Spy(Method(s, twice), Method(s, name)); spied[1] = spied[2] = true; }
                else if (n == 2) { When(Method(s, add).Using(x)).Return(100 + y); spied[0] = true; }
                else { Fake(Method(s, twice)); spied[1] = true; }
                res = cat("spy ", n, " ", x, " ", y);
                break;
            }
            case 8: {
                int n = c.range(0, 2);
                res = cat("solid ", n, ": ", n == 0 ? VALUE(vol->add(x)) : n == 1 ? VALUE(vol->twice(x)) : VALUE(vol->name(strings[x])), " ", solid.total);
                if (spy && spied[n]) res += cat(" ", n == 0 ? VALUE((bool) Verify(Method((*spy), add).Using(x)).Exactly(y)) : n == 1 ? VALUE((bool) Verify(Method((*spy), twice)).Exactly(y)) : VALUE((bool) Verify(Method((*spy), name)).Exactly(y)));
                break;
            }
            case 9:
#ifndef SHIPPED
                if (spy) { if (x % 2) { spy->Reset(); res = "spy reset"; } else { spy.reset(); res = "spy dies"; } spied[0] = spied[1] = spied[2] = false; }
#endif
                break;
            case 10:
                if (dtor[w]) { delete &a.get(); res = cat("delete: ", VALUE((bool) Verify(Dtor(a)).Exactly(y))); }
                break;
            case 11:
                a.get().number = x; a.get().real = y; snprintf(a.get().text, sizeof a.get().text, "t%d", x);
                if (!member[w]) { a.Stub(&Api::str, strings[y]); member[w] = true; }
                res = cat("data ", a.get().number, a.get().real, a.get().text, a.get().str);
                break;
            case 12: {
                int n = c.range(0, 8);
                res = cat("abandon ", n, " ", x, " ", y, ": ", VOID(abandon(a, b, n, x, y)));
                break;
            }
        }
        c.log(cat("mock ", w, " ", res, adapter.seen.empty() ? "" : " events: ", adapter.seen));
        adapter.seen.clear();
    }
    std::string end;
    for (int w = 0; w < 2; w++) end += cat(VALUE((bool) VerifyNoOtherInvocations(mocks[w])), mocks[w].get().number, " ");
    adapter.quiet = true;
    c.log(cat("end ", end, solid.total, VOID(VerifyNoOtherInvocations(mocks[0], mocks[1])), adapter.seen));
    c.nontrivialIf(ops >= 3);
    }
}

PBT_MAIN("C24", oneCase)
