// C11: spied objects keep their own behaviour and are restored afterwards.
#include "fk.hpp"
#include <deque>

struct Boom { int v; explicit Boom(int x) : v(x) {} };

// Everything the bodies do is visible in total and trail.
struct Obj0 {
    int total; std::string trail; Obj0 *peer; int guard_;
    Obj0() : total(0), peer(nullptr), guard_(4711) {}
    virtual ~Obj0() {}
    virtual int peek(int x) const { return total * 2 + x; }
    virtual void note(int x) { trail += cat("n", x); total++; }
    virtual int add(int x) { trail += cat("a", x); total += x; return total; }
    virtual int fact(int n) { trail += cat("f", n); return n <= 0 ? 1 : n * fact(n - 1); }
    virtual int ping(int n) { trail += cat("i", n); return n <= 0 ? total : pong(n - 1) + 1; }
    virtual int pong(int n) { return n <= 0 ? -total : ping(n - 1) + 100; }
    virtual int twice(int x) { trail += cat("t", x); int a = add(x); note(x); return a * 1000 + add(x + 1); }
    virtual int guard(int x) { trail += cat("g", x); if (x == 2) throw Boom(20 + total); return add(x) + helper(x); }
    virtual int relay(int x) { trail += cat("r", x); return peer ? peer->fact(x) + peer->peek(x) : -1; }
    int helper(int x) { return peek(x) + fact(x > 2 ? 2 : x); }   // not virtual
};
struct Obj : Obj0 {
    int more;
    Obj() : more(0) {}
    int pong(int n) override { trail += cat("o", n); more += n; return n <= 0 ? more : ping(n - 1) + 10; }
    virtual int mix(int x) {
        trail += cat("m", x);
        int r = 0;
        try { r += twice(x); r += 10 * guard(x); } catch (Boom &b) { r -= b.v; trail += "!"; }
        return r + Obj0::add(x) + helper(x);
    }
    virtual int deep(int x) { trail += cat("d", x); return x <= 0 ? mix(1) : deep(x - 1) + relay(x); }
};

// number, name; a body only calls methods further up or itself with a smaller argument
#define METHODS(X) X(0, peek) X(2, add) X(3, fact) X(4, ping) X(5, pong) X(6, twice) X(7, guard) X(8, relay) X(9, mix) X(10, deep)
enum { NM = 11, NOTE = 1 };
static const char *names[NM] = {"peek", "note", "add", "fact", "ping", "pong", "twice", "guard", "relay", "mix", "deep"};
static const int levels[NM] = {0, 0, 1, 2, 3, 3, 4, 5, 5, 6, 7};

template<class T> __attribute__((noinline)) T &hide(T &x) { T *p = &x; asm volatile("" : "+r"(p) : : "memory"); return *p; }

static int invoke(Obj &o, int m, int x, bool base) {
    Obj &d = hide(o); Obj0 &b = hide<Obj0>(o); const Obj &k = d;
    switch (m) {
        case 0: return base ? b.peek(x) : k.peek(x);
        case 1: (base ? b : d).note(x); return 0;
        case 2: return (base ? b : d).add(x);
        case 3: return (base ? b : d).fact(x);
        case 4: return (base ? b : d).ping(x);
        case 5: return (base ? b : d).pong(x);
        case 6: return (base ? b : d).twice(x);
        case 7: return (base ? b : d).guard(x);
        case 8: return (base ? b : d).relay(x);
        case 9: return d.mix(x);
        default: return d.deep(x);
    }
}

struct Act { char kind; int v; int n; int m; };   // R return, T throw, P original, D call method m of the object and add v
struct Handler { int filter; std::deque<Act> acts; };   // filter -1: any argument
struct Rec { int m, x; bool verified; };

struct Unexpected {};

// the same object with the documented behaviour of a spy written by hand
struct Twin : Obj {
    bool bound[NM]; bool out[NM]; std::vector<Handler> handlers[NM]; std::vector<Rec> calls; int forwarded, nested;
    Twin() : forwarded(0), nested(0) { restore(); }
    void restore() {
        for (int i = 0; i < NM; i++) { bound[i] = out[i] = false; handlers[i].clear(); }
        calls.clear();
    }
    struct Out { bool &b; bool old; explicit Out(bool &x) : b(x), old(x) { b = true; } ~Out() { b = old; } };
    template<class F> int go(int m, int x, F original) {
        if (!bound[m]) return original();
        if (out[m]) { nested++; return original(); }
        for (size_t i = handlers[m].size(); i-- > 0;) {
            Handler &h = handlers[m][i];
            if (h.filter >= 0 && h.filter != x) continue;
            calls.push_back(Rec{m, x, false});
            if (h.acts.empty()) throw Unexpected();
            Act a = h.acts.front();
            if (h.acts.front().n > 0 && --h.acts.front().n == 0) h.acts.pop_front();
            if (a.kind == 'R') return a.v;
            if (a.kind == 'T') throw Boom(a.v);
            if (a.kind == 'D') return invoke(*this, a.m, x, false) + a.v;
            forwarded++;
            Out o(out[m]);
            return original();
        }
        throw Unexpected();
    }
    int peek(int x) const override { return const_cast<Twin *>(this)->go(0, x, [&] { return Obj::peek(x); }); }
    void note(int x) override { go(1, x, [&] { Obj::note(x); return 0; }); }
#define TWIN(I, F) int F(int x) override { return go(I, x, [&] { return Obj::F(x); }); }
    TWIN(2, add) TWIN(3, fact) TWIN(4, ping) TWIN(5, pong) TWIN(6, twice) TWIN(7, guard) TWIN(8, relay) TWIN(9, mix) TWIN(10, deep)
};

template<class F> static std::string text(F f) {
    try { return cat(f()); }
    catch (Boom &b) { return cat("Boom ", b.v); }
    catch (Unexpected &) { return "unexpected"; }
    catch (UnexpectedMethodCallException &) { return "unexpected"; }
}

template<class T> static T &lvalue(T &&x) { return x; }

static void stub(Mock<Obj> &mock, Obj &object, int m, const Handler &h) {
    Obj *o = &object;
    switch (m) {
#define STUB(I, F) case I: { \
        if (h.acts[0].kind == 'P') { \
            if (h.filter < 0) { if (h.acts[0].v) SpyWithoutVerify(Method(mock, F)); else Spy(Method(mock, F)); } \
            else { if (h.acts[0].v) SpyWithoutVerify(Method(mock, F).Using(h.filter)); else Spy(Method(mock, F).Using(h.filter)); } \
            break; \
        } \
        auto script = [&](MethodStubbingProgress<int, int> *p) { \
            for (auto &a : h.acts) { \
                int mm = a.m, v = a.v; \
                auto act = [o, mm, v](int x) -> int { return invoke(*o, mm, x, false) + v; }; \
                if (a.n < 0) { if (a.kind == 'R') p->AlwaysReturn(v); else if (a.kind == 'T') p->AlwaysThrow(Boom(v)); else p->AlwaysDo(act); break; } \
                if (a.kind == 'R') p = a.n == 1 ? &p->Return(v) : &p->Return(Quantifier<int>(a.n, v)); \
                else if (a.kind == 'T') { for (int i = 0; i < a.n; i++) p = &p->Throw(Boom(v)); } \
                else { for (int i = 0; i < a.n; i++) p = &p->Do(act); } \
            } \
        }; \
        if (h.filter < 0) script(&lvalue(When(Method(mock, F)))); else script(&lvalue(When(Method(mock, F).Using(h.filter)))); \
        break; }
        METHODS(STUB)
        case NOTE:
            if (h.acts[0].kind == 'P') {
                if (h.filter < 0) { if (h.acts[0].v) SpyWithoutVerify(Method(mock, note)); else Spy(Method(mock, note)); }
                else Spy(Method(mock, note).Using(h.filter));
            } else {
                int mm = h.acts[0].m; char kind = h.acts[0].kind; int v = h.acts[0].v;
                auto act = [=](int x) { if (kind == 'T') throw Boom(v); if (kind == 'D') invoke(*o, mm, x, false); };
                if (h.acts[0].n < 0) { if (h.filter < 0) When(Method(mock, note)).AlwaysDo(act); else When(Method(mock, note).Using(h.filter)).AlwaysDo(act); }
                else { if (h.filter < 0) When(Method(mock, note)).Do(act); else When(Method(mock, note).Using(h.filter)).Do(act); }
            }
            break;
    }
}

// several methods in one statement; returns which
static std::vector<int> spyList(Mock<Obj> &mock, int form, bool without, int filter) {
#define LIST(K, ...) case K: if (without) SpyWithoutVerify(__VA_ARGS__); else Spy(__VA_ARGS__); break;
    switch (form) {
        LIST(0, Method(mock, add), Method(mock, note))
        LIST(1, Method(mock, ping), Method(mock, pong), Method(mock, peek).Using(filter))
        LIST(2, Method(mock, fact).Using(filter), Method(mock, twice), Method(mock, guard), Method(mock, relay))
        LIST(3, Method(mock, note), Method(mock, deep), Method(mock, mix), Method(mock, add).Using(filter), Method(mock, add).Using(filter + 1), Method(mock, peek))
    }
    static const std::vector<int> which[4] = {{2, 1}, {4, 5, 100}, {103, 6, 7, 8}, {1, 10, 9, 102, 202, 0}};
    return which[form];
}

static bool verify(Mock<Obj> &mock, int m, int x, int n) {
    switch (m) {
#define VERIFY(I, F) case I: return x < 0 ? (bool) Verify(Method(mock, F)).Exactly(n) : (bool) Verify(Method(mock, F).Using(x)).Exactly(n);
        METHODS(VERIFY) VERIFY(1, note)
    }
    return false;
}

struct World {
    Obj object; Twin twin; std::unique_ptr<Mock<Obj>> mock;
};

static void oneCase(pbt::Ctx &c) {
    World w[2];
    int nw = c.coin() ? 2 : 1;
    for (int i = 0; i < nw; i++) {
        w[i].mock.reset(new Mock<Obj>(w[i].object));
        if (nw == 2) { w[i].object.peer = &w[1 - i].object; w[i].twin.peer = &w[1 - i].twin; }
    }
    int ops = 0, next = 1, restored = 0, calls = 0;
    while (ops < 80 && c.more(24)) {
        pbt::Span sp(c);
        ops++;
        int k = nw == 2 ? c.range(0, 1) : 0;
        World &o = w[k];
        std::string at = nw == 2 ? cat("object ", k, ": ") : std::string();
        switch (c.weighted({9, 12, 4, 4, 2, 1, 2})) {
            case 0: {   // spy on a method
                if (!o.mock) break;
                if (c.chance(1, 6)) {
                    int form = c.range(0, 3), filter = c.range(0, 2);
                    bool without = c.chance(1, 3);
                    c.log(cat(at, without ? "SpyWithoutVerify" : "Spy", "(list ", form, ", filter ", filter, ")"));
                    for (int m : spyList(*o.mock, form, without, filter)) {
                        Handler h; h.filter = m >= 100 ? filter + m / 100 - 1 : -1;
                        h.acts.push_back(Act{'P', without ? 1 : 0, -1, 0});
                        o.twin.bound[m % 100] = true;
                        o.twin.handlers[m % 100].push_back(h);
                    }
                    break;
                }
                int m = c.range(0, NM - 1);
                Handler h; h.filter = c.chance(1, 5) ? c.range(0, 3) : -1;
                h.acts.push_back(Act{'P', c.chance(1, 4) ? 1 : 0, -1, 0});
                c.log(cat(at, h.acts[0].v ? "SpyWithoutVerify(" : "Spy(", names[m], h.filter < 0 ? std::string() : cat(".Using(", h.filter, ")"), ")"));
                if (m == NOTE && h.filter >= 0) h.acts[0].v = 0;
                stub(*o.mock, o.object, m, h);
                o.twin.bound[m] = true;
                o.twin.handlers[m].push_back(h);
                break;
            }
            case 1: {   // call
                int m = c.range(0, NM - 1), x = c.range(0, 3);
                bool base = c.coin();
                std::string want = text([&] { return invoke(o.twin, m, x, base); });
                std::string got = text([&] { return invoke(o.mock && !base ? o.mock->get() : o.object, m, x, base); });
                c.log(cat(at, names[m], "(", x, ") -> ", got));
                c.eq(got, want, cat(names[m], "(", x, ")"));
                calls++;
                break;
            }
            case 2: {   // stub a method
                if (!o.mock) break;
                int m = c.range(0, NM - 1);
                Handler h; h.filter = c.chance(1, 3) ? c.range(0, 3) : -1;
                int n = m == NOTE ? 1 : c.range(1, 3);
                std::string t;
                for (int i = 0; i < n; i++) {
                    Act a{"RTD"[c.weighted({3, 1, 2})], m == NOTE ? 0 : next++, 1, 0};
                    if (a.kind == 'D') {
                        std::vector<int> lower;
                        for (int q = 0; q < NM; q++) if (levels[q] < levels[m]) lower.push_back(q);
                        if (lower.empty()) a.kind = 'R'; else a.m = c.pick(lower);
                    }
                    if (i == n - 1 && c.coin()) a.n = -1;
                    else if (m != NOTE && c.chance(1, 4)) a.n = 2;
                    h.acts.push_back(a);
                    t += cat(" ", a.kind, a.v, a.kind == 'D' ? cat("+", names[a.m]) : std::string(), a.n < 0 ? "*" : a.n == 2 ? "x2" : "");
                }
                c.log(cat(at, "When(", names[m], h.filter < 0 ? std::string() : cat(".Using(", h.filter, ")"), ")", t));
                stub(*o.mock, o.object, m, h);
                o.twin.bound[m] = true;
                o.twin.handlers[m].push_back(h);
                break;
            }
            case 3: {   // verify
                if (!o.mock) break;
                int m = c.range(0, NM - 1), x = c.coin() ? c.range(0, 3) : -1, n = 0;
                if (!o.twin.bound[m]) break;   // naming a method that was never stubbed: see the known findings
                for (auto &r : o.twin.calls) if (r.m == m && (x < 0 || r.x == x)) n++;
                int ask = n + (c.chance(1, 3) ? 1 : 0);
                bool got = verify(*o.mock, m, x, ask);
                c.log(cat(at, "Verify(", names[m], x < 0 ? std::string() : cat(".Using(", x, ")"), ").Exactly(", ask, ") -> ", got));
                c.eq(got, ask == n, "verification");
                if (ask == n) for (auto &r : o.twin.calls) if (r.m == m && (x < 0 || r.x == x)) r.verified = true;
                break;
            }
            case 4:
                if (!o.mock) break;
                if (c.coin()) { c.log(at + "Reset()"); o.mock->Reset(); o.twin.restore(); restored++; }
                else { c.log(at + "ClearInvocationHistory()"); o.mock->ClearInvocationHistory(); o.twin.calls.clear(); }
                break;
            case 5:
                if (o.mock) { c.log(at + "the mock dies"); o.mock.reset(); o.twin.restore(); restored++; }
                else { c.log(at + "spied on again"); o.mock.reset(new Mock<Obj>(o.object)); }
                break;
            case 6: {
                if (!o.mock) break;
                bool all = true;
                for (auto &r : o.twin.calls) all = all && r.verified;
                bool got = VerifyNoOtherInvocations(*o.mock);
                c.log(cat(at, "VerifyNoOtherInvocations -> ", got));
                c.eq(got, all, "no other invocations");
                break;
            }
        }
        for (int i = 0; i < nw; i++) {
            c.eq(w[i].object.total, w[i].twin.total, "state of the object");
            c.eq(w[i].object.trail, w[i].twin.trail, "what the original methods did");
            c.eq(w[i].object.more, w[i].twin.more, "state of the derived part");
            c.eq(w[i].object.guard_, 4711, "untouched data");
            if (w[i].mock) c.check(&w[i].mock->get() == &w[i].object, "get() is not the spied object");
            w[i].object.trail.clear(); w[i].twin.trail.clear();
        }
    }
    int forwarded = 0, nested = 0;
    for (int i = 0; i < nw; i++) { w[i].mock.reset(); w[i].twin.restore(); forwarded += w[i].twin.forwarded; nested += w[i].twin.nested; }
    for (int i = 0; i < nw; i++) for (int m = 0; m < NM; m++) {
        std::string want = text([&] { return invoke(w[i].twin, m, 2, false); }), got = text([&] { return invoke(w[i].object, m, 2, false); });
        c.eq(got, want, cat(names[m], "(2) after the mock"));
        c.eq(w[i].object.trail, w[i].twin.trail, "what the original methods did after the mock");
    }
    c.label(cat(forwarded ? "forwarded" : "not forwarded", nested ? ", self calls" : "", restored ? ", restored" : ""));
    c.nontrivialIf(forwarded >= 2);
}

PBT_MAIN("C11", oneCase)
