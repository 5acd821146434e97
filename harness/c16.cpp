// C16: everything handed to a mock is destroyed exactly once and never used after that.
#include "fk.hpp"
#include <array>
#include <cstdlib>
#include <deque>
#include <new>
#include <set>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define WITH_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define WITH_ASAN 1
#endif
static long liveBlocks = 0;
#ifndef WITH_ASAN   // under the sanitizer its own operators check the blocks
void *operator new(std::size_t n) { void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); liveBlocks++; return p; }
void *operator new[](std::size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (p) { liveBlocks--; std::free(p); } }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void *p, std::size_t) noexcept { operator delete(p); }
#endif

// ---- instrumented values: every use looks the object up in the register of living objects ----
static std::set<const void *> &alive() { static std::set<const void *> s; return s; }
static std::string trouble;   // first misuse
static void bad(const std::string &s) { if (trouble.empty()) trouble = s; }
static int fuse = -1, answered = 0;
static void spark() { if (fuse > 0 && --fuse == 0) throw UserError(9); }

struct Token {
    Token() { born(); }
    Token(const Token &o) { o.use("copied"); spark(); born(); }
    Token(Token &&o) noexcept { o.use("moved"); born(); }
    Token &operator=(const Token &o) { use("assigned to"); o.use("assigned from"); spark(); return *this; }
    ~Token() { if (alive().erase(this) == 0) bad("an object was destroyed twice or never constructed"); magic = 0; }
    void use(const char *what) const { if (!alive().count(this) || magic != 0x51f15eed) bad(std::string("an object that is not alive was ") + what); }
private:
    void born() noexcept { magic = 0x51f15eed; if (!alive().insert(this).second) bad("an object was constructed over a living one"); }
    unsigned magic;
};
struct Val {   // copyable value
    Token t; int v; std::string pad;
    explicit Val(int n) : v(n), pad(30 + (size_t) n, 'p') {}
    void touch() const { t.use("used"); if (pad.size() != 30 + (size_t) v || pad[(size_t) v] != 'p') bad("an object lost its content"); }
};
static bool operator==(const Val &a, const Val &b) { a.touch(); b.touch(); return a.v == b.v; }
static bool operator!=(const Val &a, const Val &b) { return !(a == b); }
static bool operator>(const Val &a, const Val &b) { a.touch(); b.touch(); return a.v > b.v; }
static std::ostream &operator<<(std::ostream &s, const Val &a) { a.touch(); return s << "val" << a.v; }
struct Only {   // move-only value
    Token t; std::unique_ptr<int> p;
    explicit Only(int n) : p(new int(n)) {}
    Only(Only &&) = default;
    void touch() const { t.use("used"); if (!p) bad("a move-only object lost its content"); }
};
struct Failing : std::exception {   // exception object
    Val a;
    explicit Failing(int n) : a(n) {}
    Failing(const Failing &o) : std::exception(o), a(o.a) {}
    ~Failing() noexcept {}
};
template<class R> struct Make { static R of(int v) { return R(v); } };
template<> struct Make<void> { static void of(int) {} };
template<class R> struct Callable {
    Val a; bool throwing;
    Callable(int n, bool t) : a(n), throwing(t) {}
    R go() const { a.touch(); if (throwing) throw Failing(a.v); return Make<R>::of(a.v); }
    R operator()(int) const { return go(); }
    R operator()(Val &x, const Val &y) const { x.touch(); y.touch(); return go(); }
    R operator()(Only &x) const { x.touch(); return go(); }
    R operator()(Val *, Val &) const { return go(); }
};
struct Pred {
    Val a;
    explicit Pred(int n) : a(n) {}
    bool operator()(int x) const { a.touch(); return x <= a.v; }
    bool operator()(const Val &x, const Val &y) const { a.touch(); x.touch(); y.touch(); return x.v <= a.v; }
};

struct OwnState {   // answers with a reference to what it owns itself
    Val a;
    explicit OwnState(int n) : a(n) {}
    const Val &operator()(int) const { a.touch(); return a; }
};

struct Plain {   // default-constructible, owns memory; its only trace is a block
    std::unique_ptr<int> p;
    Plain() : p(new int(5)) {}
    Plain(const Plain &o) : p(new int(*o.p)) {}
    void touch() const { if (!p || *p != 5) bad("a default object lost its content"); }
};

struct I {
    virtual Val val(int) = 0;
    virtual int arg(Val, const Val &) = 0;
    virtual Only mv(Only) = 0;
    virtual const Val &ref(int) = 0;
    virtual int out(Val *, Val &) = 0;
    virtual Plain plain(int) = 0;
    virtual const Plain &plainRef(int) = 0;
    virtual ~I() {}
};
struct Original : I {
    Val state;
    Original() : state(3) {}
    Val val(int n) override { return Val(n); }
    int arg(Val a, const Val &b) override { a.touch(); b.touch(); return 1; }
    Only mv(Only o) override { o.touch(); return Only(2); }
    const Val &ref(int) override { return state; }
    int out(Val *, Val &) override { return 2; }
    Plain own;
    Plain plain(int) override { return Plain(); }
    const Plain &plainRef(int) override { return own; }
};

struct Op { int slot, kind, form, a, b, burn; };
static const char *const kindName[] = {"stub val", "stub arg", "stub mv", "stub ref", "stub out", "stub destructor", "call val", "call arg", "call mv",
                                       "call ref", "call out", "delete", "verify", "verify sequence", "stored context", "clear", "reset", "recreate", "scope left by exception", "no other", "spy", "stub plain", "call plain"};
enum { SVAL, SARG, SMV, SREF, SOUT, SDTOR, CVAL, CARG, CMV, CREF, COUT, DEL, VER, VSEQ, STORED, CLEAR, RESET, RECREATE, SCOPE, NOMORE, SPY, SPLAIN, CPLAIN, NKINDS };

struct Silent : EventHandler {
    std::string last; bool throwing;
    Silent() : throwing(false) {}
    template<class E> void take(const E &e) { DefaultEventFormatter f; std::string s = f.format(e); last = s; if (throwing) throw UserError(8); }
    void handle(const UnexpectedMethodCallEvent &e) override { take(e); }
    void handle(const SequenceVerificationEvent &e) override { take(e); }
    void handle(const NoMoreInvocationsVerificationEvent &e) override { take(e); }
};

struct World {
    bool spy;
    std::unique_ptr<Original> originals[2];
    std::unique_ptr<Mock<I>> mocks[2];
    std::unique_ptr<Mock<Original>> spies[2];
    std::deque<Val> mine;   // objects passed by reference: they have to outlive the history
    Silent listener;
    explicit World(bool s) : spy(s) {
        for (int i = 0; i < 2; i++) make(i);
        Fakeit.addEventHandler(listener);
    }
    ~World() { Fakeit.clearEventHandlers(); fuse = -1; }
    void make(int i) {
        if (spy) { if (!originals[i]) originals[i].reset(new Original()); spies[i].reset(new Mock<Original>(*originals[i])); }
        else mocks[i].reset(new Mock<I>());
    }
    size_t owned() { size_t n = mine.size(); for (auto &o : originals) if (o) n++; return n; }
    Val &keep(int n) { int f = fuse; fuse = -1; mine.emplace_back(n); fuse = f; return mine.back(); }

    template<class C> void run(Mock<C> &mock, const Op &o) {
        switch (o.kind) {
            case SVAL:
                switch (o.form % 9) {
                    case 0: When(Method(mock, val)).Return(Val(o.a)).Return(Val(o.b)); break;
                    case 1: When(Method(mock, val).Using(o.a)).Return(Val(o.a), Val(o.b), Val(1)); break;
                    case 2: { Val v(o.a); When(Method(mock, val)).Return(2_Times(v), 1_Time(Val(o.b))); break; }
                    case 3: { Val v(o.a); When(Method(mock, val)).AlwaysReturn(v); break; }
                    case 4: When(Method(mock, val)).Throw(Failing(o.a)).AlwaysThrow(Failing(o.b)); break;
                    case 5: { Callable<Val> f(o.a, false), g(o.b, true); When(Method(mock, val)).Do(f).Do(2_Times(g), f).AlwaysDo(g); break; }
                    case 6: { Callable<Val> f(o.a, false); Method(mock, val) = f; break; }
                    case 7: { Pred p(o.a); When(Method(mock, val).Matching(p)).Throw(2_Times(Failing(o.b)), Failing(o.a)); break; }
                    case 8: { Val v(o.b); Method(mock, val).Using(Gt(o.a)) = v; break; }
                }
                break;
            case SARG:
                switch (o.form % 7) {
                    case 0: { Val e(o.a); When(Method(mock, arg).Using(e, _)).Return(1, 2); break; }
                    case 1: When(Method(mock, arg).Using(Eq(Val(o.a)), Gt(Val(o.b)))).Return(1); break;
                    case 2: { Pred p(o.a); When(Method(mock, arg).Matching(p)).Return(3); break; }
                    case 3: { Callable<int> f(o.a, false); When(Method(mock, arg)(Val(o.a), Val(o.b))).AlwaysDo(f); break; }
                    case 4: { Callable<int> f(o.a, true); Method(mock, arg) = f; break; }
                    case 5: Fake(Method(mock, arg)); break;
                    case 6: { Pred p(o.a); Fake(Method(mock, arg)(p)); break; }
                }
                break;
            case SMV:
                switch (o.form % 4) {
                    case 0: When(Method(mock, mv)).Return(Only(o.a)).Return(Only(o.b)); break;
                    case 1: { Callable<Only> f(o.a, false); When(Method(mock, mv)).AlwaysDo(f); break; }
                    case 2: { Callable<Only> f(o.a, true); When(Method(mock, mv)).Do(f); break; }
                    case 3: When(Method(mock, mv)).Throw(Failing(o.a)); break;
                }
                break;
            case SREF:
                switch (o.form % 5) {
                    case 0: When(Method(mock, ref)).Return(keep(o.a)); break;
                    case 1: When(Method(mock, ref)).AlwaysReturn(keep(o.a)); break;
                    case 2: Method(mock, ref) = keep(o.a); break;
                    case 3: { OwnState f(o.a), g(o.b); When(Method(mock, ref)).Do(f).Do(2_Times(g), f); break; }
                    case 4: { OwnState f(o.a), g(o.b); When(Method(mock, ref)).Do(f).AlwaysDo(g); break; }
                }
                break;
            case SOUT:
                switch (o.form % 4) {
                    case 0: When(Method(mock, out)).ReturnAndSet(1, Val(o.a), Val(o.b)); break;
                    case 1: { Val &v = keep(o.a); /* variables are taken by reference */ When(Method(mock, out)).ReturnAndSet(2, v).AlwaysReturnAndSet(3, v, Val(o.b)); break; }
                    case 2: When(Method(mock, out)).AlwaysReturnAndSet(1, Val(o.a), Val(o.b)); break;
                    case 3: { using std::placeholders::_2; When(Method(mock, out)).ReturnAndSet(4, _2 <= Val(o.b)).Return(5); break; }
                }
                break;
            case SDTOR:
                switch (o.form % 3) {
                    case 0: Fake(Dtor(mock)); break;
                    case 1: { struct F { Val a; void operator()() const { a.touch(); } }; F f = {Val(o.a)}; When(Dtor(mock)).Do(f).Do(f); break; }
                    case 2: When(Dtor(mock)).Return(); break;
                }
                break;
            case CVAL: { Val v = mock.get().val(o.a); v.touch(); answered++; break; }
            case CARG: { Val v(o.a); mock.get().arg(v, keep(o.b)); answered++; break; }
            case CMV: { Only r = mock.get().mv(Only(o.a)); r.touch(); answered++; break; }
            case CREF: { const Val &v = mock.get().ref(o.a); v.touch(); answered++; break; }
            case COUT: { Val &a = keep(o.a), &b = keep(o.b); mock.get().out(&a, b); a.touch(); b.touch(); break; }
            case DEL: if (!spy) { I *p = &mock.get(); delete p; } break;
            case VER:
                switch (o.form % 6) {
                    case 0: Verify(Method(mock, val)).Exactly(o.b); break;
                    case 1: { Val e(o.a); Verify(Method(mock, arg).Using(e, _)).AtLeastOnce(); break; }
                    case 2: Verify(Method(mock, arg).Using(Gt(Val(o.a)), Val(o.b)) * 2).Once(); break;
                    case 3: { Pred p(o.a); if (Verify(Method(mock, arg).Matching(p)).AtLeast(o.b)) {} break; }
                    case 4: Unverified.Verify(Method(mock, arg), Method(mock, val)).Exactly(o.b); break;
                    case 5: { Val e(o.b); Using(mock).Verify(Method(mock, arg).Using(Eq(e), Ne(Val(o.a)))).Never(); break; }
                }
                break;
            case VSEQ: {
                Val e(o.a);
                auto c = Method(mock, arg).Using(e, Any());
                auto d = Method(mock, val).Using(o.a);
                if (o.form % 2) Verify(c + d, d * 2, c).Exactly(o.b); else if (Verify((c + d) * 2, c)) {}
                break;
            }
            case STORED: {
                Val e(o.a);
                auto c = Method(mock, arg).Using(e, _);
                if (o.form % 2) When(c).Return(1); else { Callable<int> f(o.b, false); When(c).AlwaysDo(f); }
                Val x(o.a);
                mock.get().arg(x, keep(o.b));
                if (Verify(c)) {}
                Callable<int> g(o.b, true);
                When(c).Do(g).Throw(Failing(o.a));
                break;
            }
            case SPY:
                if (!spy) break;
                switch (o.form % 4) {   // spying needs copyable arguments
                    case 0: Spy(Method(mock, val)); break;
                    case 1: Spy(Method(mock, arg)); break;
                    case 2: Spy(Method(mock, val).Using(o.a)); break;
                    case 3: { Val e(o.a); Spy(Method(mock, arg).Using(e, _), Method(mock, ref)); break; }
                }
                break;
            case SPLAIN:
                switch (o.form % 5) {
                    case 0: Fake(Method(mock, plain), Method(mock, plainRef)); break;
                    case 1: When(Method(mock, plain)).Return().Return(Plain()).AlwaysReturn(); break;
                    case 2: When(Method(mock, plainRef)).Return().AlwaysReturn(); break;
                    case 3: When(Method(mock, plain)).AlwaysReturn(Plain()); break;
                    case 4: Method(mock, plain) = Plain(); break;
                }
                break;
            case CPLAIN:
                for (int i = 0; i <= o.a; i++) { if (o.form % 2) mock.get().plain(i).touch(); else mock.get().plainRef(i).touch(); answered++; }
                break;
            case NOMORE: VerifyNoOtherInvocations(mock); break;
            case CLEAR: mock.ClearInvocationHistory(); break;
            case RESET: mock.Reset(); break;
        }
    }
    void execute(const Op &o) {
        listener.throwing = o.form % 5 == 4;
        fuse = o.burn > 0 ? o.burn : -1;
        try {
            if (o.kind == RECREATE) { fuse = -1; mocks[o.slot].reset(); spies[o.slot].reset(); make(o.slot); }
            else if (o.kind == SCOPE) {
                Mock<I> local;
                Op x = o;
                x.kind = o.a % 2 ? SVAL : SARG; run(local, x);
                x.kind = o.a % 2 ? CVAL : CARG; run(local, x);
                x.kind = o.b % 2 ? SVAL : VER; run(local, x);
                throw UserError(7);
            }
            else if (spy) run(*spies[o.slot], o);
            else run(*mocks[o.slot], o);
        }
        catch (const Failing &f) { f.a.touch(); answered++; }
        catch (const UserError &) {}
        catch (const UnexpectedMethodCallException &) {}
        catch (const VerificationException &e) { listener.last = e.what(); }
        catch (const std::exception &e) { listener.last = e.what(); }
        fuse = -1;
    }
};

static void execute(pbt::Ctx &c, bool spy, const std::vector<Op> &ops, int ending) {
    size_t before = alive().size();
    {
        std::unique_ptr<World> w(new World(spy));
        for (size_t i = 0; i < ops.size(); i++) {
            w->execute(ops[i]);
            if (!trouble.empty()) c.fail(cat("operation ", i, ": ", trouble));
            if (ops[i].kind == RESET || ops[i].kind == RECREATE) {
                // nothing may be left of the mock that was reset; check when the other one holds nothing either
                Op o = ops[i]; o.kind = RESET; o.slot = 1 - o.slot; o.burn = 0;
                if (ops[i].form % 2) { w->execute(o); c.eq(alive().size() - before, w->owned(), "living objects after both mocks were reset"); }
            }
        }
        if (ending == 0) { for (auto &m : w->mocks) m.reset(); for (auto &m : w->spies) m.reset(); c.eq(alive().size() - before, w->owned(), "living objects after the mocks were destroyed"); }
        if (ending == 1) { std::swap(w->mocks[0], w->mocks[1]); }
    }
    if (!trouble.empty()) c.fail(cat("at the end: ", trouble));
    c.eq(alive().size(), before, "living objects at the end");
}

static void oneCase(pbt::Ctx &c) {
    trouble.clear();
    alive().clear();
    bool spy = c.chance(1, 4);
    std::vector<Op> ops;
    while (ops.size() < 40 && c.more(14)) {
        pbt::Span sp(c);
        Op o;
        o.slot = c.range(0, 1);
        o.kind = (int) c.weighted({4, 4, 2, 2, 2, 1, 5, 6, 2, 2, 2, 1, 4, 2, 2, 1, 1, 1, 1, 1, 2, 2, 2});
        o.form = c.range(0, 19); o.a = c.range(0, 3); o.b = c.range(0, 3);
        o.burn = c.chance(1, 4) ? c.range(1, 8) : 0;
        if (spy && (o.kind == VSEQ || o.kind == VER)) continue;   // would take over methods that were never stubbed
        if (spy && o.kind == SDTOR) continue;
        ops.push_back(o);
        c.log(cat("m", o.slot, " ", kindName[o.kind], " form ", o.form, " values ", o.a, ",", o.b, o.burn ? cat(" copy ", o.burn, " throws") : ""));
    }
    int ending = c.range(0, 2);
    c.label(spy ? "spies" : "mocks");
    answered = 0;
    execute(c, spy, ops, ending);
    c.nontrivialIf(answered >= 2);
    // once more: everything allocated lazily for good exists by now, so the numbers of blocks must agree
    long blocks = liveBlocks;
    execute(c, spy, ops, ending);
    if (liveBlocks != blocks) {
        blocks = liveBlocks;
        execute(c, spy, ops, ending);
        c.eq(liveBlocks - blocks, 0L, "memory blocks left behind by a complete history");
    }
}

PBT_MAIN("C16", oneCase)
