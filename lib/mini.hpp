// A small mocked class with a run-time driven front end (stub / call / verify / history) and its
// reference model. C++11. Everything goes through the public interface of the library.
#pragma once
#include "cond.hpp"
#include <deque>

// ---- actions ---------------------------------------------------------------------------------
struct Act { char kind; int v; int n; };   // R return, D default, T throw, F callable, P original; n uses, -1 for ever
inline std::string actText(const Act &a) { return cat(a.kind, a.v, a.n == 1 ? std::string() : a.n < 0 ? std::string("*") : cat("x", a.n)); }
inline std::string actsText(const std::vector<Act> &v) { std::string t; for (auto &a : v) t += cat(" ", actText(a)); return t; }

enum { NM = 4 };
static const char *const methodName[NM] = {"f", "v", "s", "g"};

struct Pure {   // interface
    virtual ~Pure() {}
    virtual int f(int) = 0;
    virtual void v(int) = 0;
    virtual std::string s(int, int) = 0;
    virtual int g(int) const = 0;
};
struct Solid {   // concrete, stateful
    int state; long extra;
    Solid() : state(10), extra(77) {}
    virtual int f(int x) { state += x; return state; }
    virtual void v(int x) { state -= 2 * x; }
    virtual std::string s(int x, int y) { return cat("orig ", x, " ", y, " ", state); }
    virtual int g(int x) const { return state * 1000 + x; }
    virtual ~Solid() {}
};

// called by callable actions; may run arbitrary code (re-entrancy)
inline std::function<void(int id, int x)> &actionHook() { static std::function<void(int, int)> h; return h; }

template<class R> struct MiniVal;
template<> struct MiniVal<int> { static int of(int v) { return v; } static std::string show(int v) { return cat("ret ", v); } };
template<> struct MiniVal<std::string> { static std::string of(int v) { return cat("text-of-a-certain-length-", v); } static std::string show(const std::string &v) { return cat("ret ", v); } };

template<class R> struct MiniCall {
    int v;
    // x is read again after the hook: the argument must still be there
    R operator()(const int &x) const { if (actionHook()) actionHook()(v, x); return MiniVal<R>::of(v * 100 + x); }
    R operator()(const int &x, int) const { return (*this)(x); }
};
template<> struct MiniCall<void> {
    int v;
    void operator()(const int &x) const { if (actionHook()) actionHook()(v, x); }
};
inline QuantifierFunctor miniTimes(int n) { return fakeit::operator""_Times((unsigned long long) n); }
template<class P> P &lvalue(P &&p) { return p; }

template<class R, class P> P &commonAct(P &p, const Act &a, bool &done) {
    done = true;
    if (a.kind == 'T') {
        if (a.n < 0) { p.AlwaysThrow(UserError(a.v)); return p; }
        return a.n == 1 ? p.Throw(UserError(a.v)) : p.Throw(miniTimes(a.n)(UserError(a.v)));
    }
    if (a.kind == 'F') {
        if (a.n < 0) { p.AlwaysDo(MiniCall<R>{a.v}); return p; }
        return a.n == 1 ? p.Do(MiniCall<R>{a.v}) : p.Do(miniTimes(a.n)(MiniCall<R>{a.v}));
    }
    done = false;
    return p;
}
template<class R> struct MiniActs {
    template<class P> static P &one(P &p, const Act &a) {
        bool done; P &q = commonAct<R>(p, a, done); if (done) return q;
        if (a.kind == 'D') { if (a.n < 0) { p.AlwaysReturn(); return p; } return p.Return(); }
        if (a.n < 0) { p.AlwaysReturn(MiniVal<R>::of(a.v)); return p; }
        return a.n == 1 ? p.Return(MiniVal<R>::of(a.v)) : p.Return(miniTimes(a.n)(MiniVal<R>::of(a.v)));
    }
};
template<> struct MiniActs<void> {
    template<class P> static P &one(P &p, const Act &a) {
        bool done; P &q = commonAct<void>(p, a, done); if (done) return q;
        if (a.n < 0) { p.AlwaysReturn(); return p; }
        return a.n == 1 ? p.Return() : p.Return(miniTimes(a.n));
    }
};
template<class R, class... A> void applyActs(MethodStubbingProgress<R, A...> &p0, const std::vector<Act> &acts) {
    MethodStubbingProgress<R, A...> *p = &p0;
    for (auto &a : acts) p = &MiniActs<R>::one(*p, a);
}

// remembers the latest unexpected call and failure
struct MiniListener : EventHandler {
    std::string unexpected;
    int nUnexpected, nSeq, nNoMore;
    std::vector<std::string> examined, unverified;
    MiniListener() { reset(); }
    void reset() { unexpected.clear(); nUnexpected = nSeq = nNoMore = 0; examined.clear(); unverified.clear(); }
    void handle(const UnexpectedMethodCallEvent &e) override {
        nUnexpected++;
        unexpected = cat(e.getUnexpectedType() == UnexpectedType::Unmocked ? "unmocked" : "unmatched", " ", e.getInvocation().format());
    }
    void handle(const SequenceVerificationEvent &e) override {
        nSeq++; examined.clear();
        for (auto *i : e.actualSequence()) examined.push_back(i->format());
    }
    void handle(const NoMoreInvocationsVerificationEvent &e) override {
        nNoMore++; examined.clear(); unverified.clear();
        for (auto *i : e.allIvocations()) examined.push_back(i->format());
        for (auto *i : e.unverifedIvocations()) unverified.push_back(i->format());
    }
};
inline MiniListener &miniListener() { static MiniListener l; return l; }
struct MiniListen {
    MiniListen() { miniListener().reset(); Fakeit.addEventHandler(miniListener()); }
    ~MiniListen() { Fakeit.clearEventHandlers(); }
};
inline std::string joinText(const std::vector<std::string> &v) { std::string t; for (auto &s : v) t += s + " "; return t; }

// ---- real side -------------------------------------------------------------------------------
template<class C> struct StubUsing {
    Mock<C> &mock; int method; const std::vector<Act> &acts;
    template<class M> void operator()(const M &m) const {
        switch (method) {
            case 0: applyActs(lvalue(When(Method(mock, f).Using(m))), acts); break;
            case 1: applyActs(lvalue(When(Method(mock, v).Using(m))), acts); break;
            case 2: applyActs(lvalue(When(Method(mock, s).Using(m, _))), acts); break;
            case 3: applyActs(lvalue(When(Method(mock, g).Using(m))), acts); break;
        }
    }
};
template<class C> struct CountUsing {
    Mock<C> &mock; int method; int n; bool statement;
    template<class M> bool operator()(const M &m) const {
        if (statement) {
            switch (method) {
                case 0: Verify(Method(mock, f).Using(m)).Exactly(n); break;
                case 1: Verify(Method(mock, v).Using(m)).Exactly(n); break;
                case 2: Verify(Method(mock, s).Using(m, _)).Exactly(n); break;
                case 3: Verify(Method(mock, g).Using(m)).Exactly(n); break;
            }
            return true;
        }
        switch (method) {
            case 0: return Verify(Method(mock, f).Using(m)).Exactly(n);
            case 1: return Verify(Method(mock, v).Using(m)).Exactly(n);
            case 2: return Verify(Method(mock, s).Using(m, _)).Exactly(n);
        }
        return Verify(Method(mock, g).Using(m)).Exactly(n);
    }
};

template<class C> struct MiniReal {
    Mock<C> &mock;
    C *obj;
    explicit MiniReal(Mock<C> &m) : mock(m), obj(&m.get()) {}
    void stub(int method, bool hasCond, const Cond &k, const std::vector<Act> &acts) {
        if (hasCond) { withCondSmall(k, StubUsing<C>{mock, method, acts}); return; }
        switch (method) {
            case 0: applyActs(lvalue(When(Method(mock, f))), acts); break;
            case 1: applyActs(lvalue(When(Method(mock, v))), acts); break;
            case 2: applyActs(lvalue(When(Method(mock, s))), acts); break;
            case 3: applyActs(lvalue(When(Method(mock, g))), acts); break;
        }
    }
    void fake(int method) {
        switch (method) {
            case 0: Fake(Method(mock, f)); break;
            case 1: Fake(Method(mock, v)); break;
            case 2: Fake(Method(mock, s)); break;
            case 3: Fake(Method(mock, g)); break;
        }
    }
    void fakeAll() { Fake(Method(mock, f), Method(mock, v), Method(mock, s), Method(mock, g)); }
    void spy(int method) {
        switch (method) {
            case 0: Spy(Method(mock, f)); break;
            case 1: Spy(Method(mock, v)); break;
            case 2: Spy(Method(mock, s)); break;
            case 3: Spy(Method(mock, g)); break;
        }
    }
    static std::string callOn(C *o, int method, int x) {
        miniListener().unexpected.clear();
        std::string r = outcome([&]() -> std::string {
            switch (method) {
                case 0: return MiniVal<int>::show(o->f(x));
                case 1: o->v(x); return "void";
                case 2: return MiniVal<std::string>::show(o->s(x, x + 1));
                case 3: return MiniVal<int>::show(o->g(x));
            }
            return "?";
        });
        return r == "unexpected" ? cat("unexpected ", miniListener().unexpected) : r;
    }
    std::string call(int method, int x) { return callOn(obj, method, x); }
    // Exactly(n) of one method; "pass"/"fail"
    std::string count(int method, bool hasCond, const Cond &k, int n, bool statement) {
        std::string v = outcome([&]() -> std::string {
            if (hasCond) return withCondSmall(k, CountUsing<C>{mock, method, n, statement}) ? "pass" : "fail";
            if (statement) {
                switch (method) {
                    case 0: Verify(Method(mock, f)).Exactly(n); break;
                    case 1: Verify(Method(mock, v)).Exactly(n); break;
                    case 2: Verify(Method(mock, s)).Exactly(n); break;
                    case 3: Verify(Method(mock, g)).Exactly(n); break;
                }
                return "pass";
            }
            switch (method) {
                case 0: return Verify(Method(mock, f)).Exactly(n) ? "pass" : "fail";
                case 1: return Verify(Method(mock, v)).Exactly(n) ? "pass" : "fail";
                case 2: return Verify(Method(mock, s)).Exactly(n) ? "pass" : "fail";
            }
            return Verify(Method(mock, g)).Exactly(n) ? "pass" : "fail";
        });
        return v == "verification-failed" ? "fail" : v;
    }
    // Exactly(n) of one method with the calls of another mock in view as well
    std::string countAmong(int method, int n, const ActualInvocationsSource *other) {
        const ActualInvocationsSource &o = other ? *other : mock;
        switch (method) {
            case 0: return Using(mock, o).Verify(Method(mock, f)).Exactly(n) ? "pass" : "fail";
            case 1: return Using(o, mock).Verify(Method(mock, v)).Exactly(n) ? "pass" : "fail";
            case 2: return Using(mock, o).Verify(Method(mock, s)).Exactly(n) ? "pass" : "fail";
        }
        return Using(o, mock).Verify(Method(mock, g)).Exactly(n) ? "pass" : "fail";
    }
    // all recorded calls in order, through a verification (of an already stubbed method) that fails
    std::string history(int stubbedMethod) {
        miniListener().reset();
        outcome([&]() -> std::string {
            switch (stubbedMethod) {
                case 0: Using(mock).Verify(Method(mock, f)).Exactly(99999); break;
                case 1: Using(mock).Verify(Method(mock, v)).Exactly(99999); break;
                case 2: Using(mock).Verify(Method(mock, s)).Exactly(99999); break;
                case 3: Using(mock).Verify(Method(mock, g)).Exactly(99999); break;
            }
            return "?";
        });
        return joinText(miniListener().examined);
    }
    // unverified calls, through VerifyNoOtherInvocations
    std::string unverified() {
        miniListener().reset();
        std::string r = outcome([&]() -> std::string { VerifyNoOtherInvocations(mock); return "pass"; });
        return cat(r, " ", joinText(miniListener().unverified));
    }
};

// ---- model -----------------------------------------------------------------------------------
struct StubRec { bool hasCond; Cond cond; std::deque<Act> acts; };
struct CallRec { int method, x; bool verified; int serial; };
struct MiniModel {
    std::vector<StubRec> stubs[NM];
    bool bound[NM];
    std::vector<CallRec> calls;
    MiniModel() { clearAll(); }
    void clearAll() { for (int i = 0; i < NM; i++) { stubs[i].clear(); bound[i] = false; } calls.clear(); }
    static std::string text(int method, int x) { return method == 2 ? cat("mock.s(", x, ", ", x + 1, ")") : cat("mock.", methodName[method], "(", x, ")"); }
    void stub(int method, bool hasCond, const Cond &k, const std::vector<Act> &acts) {
        StubRec s; s.hasCond = hasCond; s.cond = k; s.acts.assign(acts.begin(), acts.end());
        stubs[method].push_back(s);
        bound[method] = true;
    }
    // starts a call: the action to perform, or null with *why set
    bool begin(int method, int x, Act &act, std::string &why, int serial = 0) {
        auto &v = stubs[method];
        for (size_t i = v.size(); i-- > 0;) {
            if (v[i].hasCond && !v[i].cond.accepts(x)) continue;
            calls.push_back(CallRec{method, x, false, serial});
            auto &q = v[i].acts;
            while (!q.empty() && q.front().n == 0) q.pop_front();
            if (q.empty()) { why = cat("unexpected unmatched ", text(method, x)); return false; }
            act = q.front();
            if (q.front().n > 0) q.front().n--;
            return true;
        }
        why = bound[method] ? cat("unexpected unmatched ", text(method, x)) : std::string("unexpected unmocked unknown()");
        return false;
    }
    static std::string result(int method, const Act &a, int x) {
        if (a.kind == 'T') return cat("throw UserError ", a.v);
        if (method == 1) return "void";
        if (method == 2) return a.kind == 'D' ? std::string("ret ") : MiniVal<std::string>::show(MiniVal<std::string>::of(a.kind == 'F' ? a.v * 100 + x : a.v));
        return cat("ret ", a.kind == 'D' ? 0 : a.kind == 'F' ? a.v * 100 + x : a.v);
    }
    std::string call(int method, int x) {
        Act a; std::string why;
        return begin(method, x, a, why) ? result(method, a, x) : why;
    }
    int count(int method, bool hasCond, const Cond &k) const {
        int n = 0;
        for (auto &c : calls) if (c.method == method && (!hasCond || k.accepts(c.x))) n++;
        return n;
    }
    void verify(int method, bool hasCond, const Cond &k) {
        for (auto &c : calls) if (c.method == method && (!hasCond || k.accepts(c.x))) c.verified = true;
    }
    int someBound() const { for (int i = 0; i < NM; i++) if (bound[i]) return i; return -1; }
    std::string history() const { std::string t; for (auto &c : calls) t += text(c.method, c.x) + " "; return t; }
    std::string unverified() const {
        std::string t;
        for (auto &c : calls) if (!c.verified) t += text(c.method, c.x) + " ";
        return t.empty() ? std::string("pass ") : cat("no-more-failed ", t);
    }
};

inline std::vector<Act> genActs(pbt::Ctx &c, int method, int &next, const char *kinds = "RTDF") {
    std::vector<Act> r;
    size_t nk = strlen(kinds);
    int n = 0;
    while (n < 4 && c.more(1)) {
        n++;
        Act a; a.kind = kinds[c.draw((uint32_t) nk)]; a.v = next++; a.n = c.chance(1, 3) ? c.range(0, 3) : 1;
        if (a.kind == 'D' && method != 1) a.n = 1;
        if (method == 1 && a.kind == 'R') a.kind = 'D';
        r.push_back(a);
    }
    if (c.chance(1, 3)) {
        Act a; a.kind = kinds[c.draw((uint32_t) nk)]; a.v = next++; a.n = -1;
        if (method == 1 && a.kind == 'R') a.kind = 'D';
        r.push_back(a);
    }
    return r;
}
