// C15: failure messages faithfully describe pattern, counts and calls.
#include "sources.hpp"
#include <cmath>
#include <limits>

#ifndef PART
#define PART 1
#endif

static std::string where(int line) { return cat(__FILE__, ":", line, ": "); }
static std::string listOf(const std::vector<std::string> &calls) {
    std::string t;
    for (size_t i = 0; i < calls.size() && i < 50; i++) t += cat(i ? "\n" : "", "  ", calls[i]);
    if (calls.size() > 50) t += "\n  ...";
    return t;
}
static std::string seqMessage(const std::string &pattern, bool atLeast, int want, int got, const std::vector<std::string> &calls) {
    std::string t = cat("Verification error\nExpected pattern: ", pattern, "\nExpected matches: ", atLeast ? "at least " : "exactly ", want,
                        "\nActual matches  : ", got, "\nActual sequence : total of ", calls.size(), " actual invocations");
    return t + (calls.empty() ? std::string(".") : ":\n" + listOf(calls));
}
static std::string noMoreMessage(const std::vector<std::string> &calls) {
    return "Verification error\nExpected no more invocations!! but the following unverified invocations were found:\n" + listOf(calls);
}
template<class E> std::string bothTexts(const E &e) {   // as what() and streamed
    std::string w = e.what(), s = cat(e);
    return s == w ? w : cat(w, " BUT STREAMED AS ", s);
}
template<class F> std::string messageOf(F f) {
    try { f(); return "no failure"; }
    catch (const SequenceVerificationException &e) { return bothTexts(e); }
    catch (const NoMoreInvocationsVerificationException &e) { return bothTexts(e); }
    catch (const UnexpectedMethodCallException &e) { return bothTexts(e); }
}

#if PART == 1
// ---- patterns, counts, histories ---------------------------------------------------------------
static int site;
static void failing(const std::vector<PatternM> &ps, const Request &r) {
    switch (ps.size()) {
        case 1: site = __LINE__; deliver(Verify(*ps[0].seq), r, 2); break;
        case 2: site = __LINE__; deliver(Verify(*ps[0].seq, *ps[1].seq), r, 2); break;
        case 3: site = __LINE__; deliver(Verify(*ps[0].seq, *ps[1].seq, *ps[2].seq), r, 2); break;
        default: site = __LINE__; deliver(Verify(*ps[0].seq, *ps[1].seq, *ps[2].seq, *ps[3].seq), r, 2); break;
    }
}
static void oneCase(pbt::Ctx &c) {
    Mocks w;
    std::vector<Call> hist;
    GenOpts o;
    o.mocks = c.range(1, 4); o.lo = -1; o.hi = c.range(0, 3); o.maxDepth = c.range(0, 3);
    int ops = 0, serial = 0, messages = 0;
    auto call = [&]() {
        int m = c.range(0, o.mocks - 1), f = c.range(0, 1), x = c.range(o.lo, o.hi);
        w.call(m, f, x);
        hist.push_back(Call{m, f, x, false, serial++});
        c.log(cat("call ", letterName[m][f], "(", x, ")"));
    };
    if (c.chance(1, 6)) { int n = c.range(45, 60); for (int i = 0; i < n; i++) call(); }
    while (ops < 20 && c.more(10)) {
        pbt::Span sp(c);
        ops++;
        switch (c.weighted({4, 4, 2, 1})) {
            case 0: call(); break;
            case 1: {
                SeqPool pool;
                std::vector<PatternM> ps = genPatterns(c, pool, w, o, hist);
                std::vector<Call> seen;
                std::vector<std::string> calls;
                for (auto &k : hist) if (involved(ps, k.mock)) { seen.push_back(k); calls.push_back(callText("", k)); }
                MatchResult m = countMatches(ps, seen);
                Request r = genRequest(c, m.count);
                std::string msg = messageOf([&]() { failing(ps, r); });
                c.log(cat("Verify(", patternText(ps), ")", r.text()));
                std::string rendered;
                for (size_t i = 0; i < ps.size(); i++) rendered += cat(i ? " ... " : "", ps[i].rendered);
                if (r.accepts(m.count)) {
                    c.eq(msg, "no failure", "message");
                    for (size_t i : m.used) for (auto &k : hist) if (k.serial == seen[i].serial) k.verified = true;
                } else {
                    c.eq(msg, where(site) + seqMessage(rendered, r.atLeast(), r.number(), m.count, calls), "message");
                    messages++;
                    c.label(calls.size() > 50 ? "long history" : calls.empty() ? "no calls" : "calls");
                    if (!calls.empty()) c.nontrivial();
                }
                break;
            }
            case 2: {
                int m = c.range(0, o.mocks - 1), line;
                std::vector<std::string> unv;
                for (auto &k : hist) if (k.mock == m && !k.verified) unv.push_back(callText("", k));
                std::string msg = messageOf([&]() { line = __LINE__; VerifyNoOtherInvocations(w.source(m)); });
                c.log(cat("VerifyNoOtherInvocations(m", m, ")"));
                c.eq(msg, unv.empty() ? std::string("no failure") : where(line) + noMoreMessage(unv), "message");
                c.label(unv.size() > 50 ? "long unverified list" : unv.empty() ? "all verified" : "unverified list");
                break;
            }
            case 3: {
                int m = c.range(0, o.mocks - 1);
                w.clear(m);
                std::vector<Call> rest;
                for (auto &k : hist) if (k.mock != m) rest.push_back(k);
                hist = rest;
                c.log(cat("clear m", m));
                break;
            }
        }
    }
}
#else
// ---- argument types ------------------------------------------------------------------------------
struct Hidden { int v; bool operator==(const Hidden &o) const { return v == o.v; } bool operator!=(const Hidden &o) const { return v != o.v; } bool operator>(const Hidden &o) const { return v > o.v; } };
struct Shown { int v; bool operator==(const Shown &o) const { return v == o.v; } bool operator!=(const Shown &o) const { return v != o.v; } bool operator>(const Shown &o) const { return v > o.v; } };
static std::ostream &operator<<(std::ostream &os, const Shown &s) { return os << "<shown " << s.v << ">"; }
struct Special { int v; bool operator==(const Special &o) const { return v == o.v; } bool operator!=(const Special &o) const { return v != o.v; } bool operator>(const Special &o) const { return v > o.v; } };
enum Plain { Zero, One, Seven = 7 };
enum class Scoped { A, B };
namespace fakeit { template<> struct Formatter<Special> { static std::string format(Special const &s) { return cat("special#", s.v); } }; }

template<class T> std::string streamed(const T &v) { std::ostringstream o; o << v; return o.str(); }
static std::string quoted(const char *s) { return s ? cat('"', s, '"') : std::string("[nullptr]"); }

static const std::vector<std::string> &texts() {
    static const std::vector<std::string> t = {"", "a", "two words", "with \"quotes\"", "new\nline", "100%d %s", "a, b) (c", std::string(300, 'x'), "?", "\t\x01\xff"};
    return t;
}
template<class T> struct Gen;
#define NUM(T) template<> struct Gen<T> { typedef T V; static T make(pbt::Ctx &c) { \
    static const T special[] = {V(0), V(1), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), V(37)}; return special[c.draw(5)]; } \
    static std::string show(const T &v) { return streamed(v); } };
NUM(int) NUM(unsigned) NUM(float)
template<> struct Gen<double> { static double make(pbt::Ctx &c) { static const double s[] = {0, -0.0, 1, 0.1, 1e300, -2.5e-9, 123456789.0, HUGE_VAL}; return s[c.draw(8)]; } static std::string show(double v) { return streamed(v); } };
template<> struct Gen<unsigned char> { static unsigned char make(pbt::Ctx &c) { return (unsigned char) c.range(32, 126); } static std::string show(unsigned char v) { return std::string(1, (char) v); } };
template<> struct Gen<bool> { static bool make(pbt::Ctx &c) { return c.coin(); } static std::string show(bool v) { return v ? "true" : "false"; } };
template<> struct Gen<char> { static char make(pbt::Ctx &c) { return (char) c.range(1, 127); } static std::string show(char v) { return std::string("'") + v + "'"; } };
template<> struct Gen<const char *> { static const char *make(pbt::Ctx &c) { return c.chance(1, 5) ? nullptr : texts()[c.draw((uint32_t) texts().size())].c_str(); } static std::string show(const char *v) { return quoted(v); } };
template<> struct Gen<char *> { static char *make(pbt::Ctx &c) { return const_cast<char *>(Gen<const char *>::make(c)); } static std::string show(char *v) { return quoted(v); } };
template<> struct Gen<std::string> { static std::string make(pbt::Ctx &c) { return texts()[c.draw((uint32_t) texts().size())]; } static std::string show(const std::string &v) { return v; } };
static int cells[4];
template<> struct Gen<int *> { static int *make(pbt::Ctx &c) { int i = c.range(0, 4); return i == 4 ? nullptr : cells + i; } static std::string show(int *v) { return streamed(v); } };
template<> struct Gen<const void *> { static const void *make(pbt::Ctx &c) { int i = c.range(0, 4); return i == 4 ? nullptr : cells + i; } static std::string show(const void *v) { return streamed(v); } };
template<> struct Gen<Hidden> { static Hidden make(pbt::Ctx &c) { return Hidden{c.range(0, 3)}; } static std::string show(const Hidden &) { return "?"; } };
template<> struct Gen<Shown> { static Shown make(pbt::Ctx &c) { return Shown{c.range(-1, 3)}; } static std::string show(const Shown &v) { return cat("<shown ", v.v, ">"); } };
template<> struct Gen<Special> { static Special make(pbt::Ctx &c) { return Special{c.range(-1, 3)}; } static std::string show(const Special &v) { return cat("special#", v.v); } };
template<> struct Gen<Plain> { static Plain make(pbt::Ctx &c) { static const Plain p[] = {Zero, One, Seven}; return p[c.draw(3)]; } static std::string show(Plain v) { return cat((int) v); } };
template<> struct Gen<Scoped> { static Scoped make(pbt::Ctx &c) { return c.coin() ? Scoped::B : Scoped::A; } static std::string show(Scoped) { return "?"; } };
template<> struct Gen<std::vector<int>> { static std::vector<int> make(pbt::Ctx &c) { return std::vector<int>((size_t) c.range(0, 2), 4); } static std::string show(const std::vector<int> &) { return "?"; } };

template<class T> struct IT {
    virtual ~IT() {}
    virtual int val(T) = 0;
    virtual void ref(int, const T &) const = 0;
    virtual std::string two(T, T) = 0;
};

template<class T> void typeCase(pbt::Ctx &c, const char *name) {
    typedef Gen<T> G;
    c.label(name);
    Mock<IT<T>> mock;
    Fake(Method(mock, val), Method(mock, ref), Method(mock, two));
    IT<T> &obj = mock.get();
    std::deque<T> kept;   // arguments recorded by reference must live on
    std::vector<std::string> calls;
    int n = 0;
    while (n < 8 && c.more(3)) {
        pbt::Span sp(c);
        n++;
        kept.push_back(G::make(c)); const T &v = kept.back();
        switch (c.range(0, 2)) {
            case 0: obj.val(v); calls.push_back(cat("mock.val(", G::show(v), ")")); break;
            case 1: obj.ref(n, v); calls.push_back(cat("mock.ref(", n, ", ", G::show(v), ")")); break;
            case 2: { kept.push_back(G::make(c)); const T &u = kept.back(); obj.two(v, u); calls.push_back(cat("mock.two(", G::show(v), ", ", G::show(u), ")")); break; }
        }
        c.log(cat(name, ": ", calls.back()));
    }
    T e = G::make(c), e2 = G::make(c);
    const int big = 777;   // never reached, so every verification below fails
    int line = 0;
    std::string pattern, msg;
    int form = c.range(0, 8);
    int got = -1;
    switch (form) {
        case 0: msg = messageOf([&]() { line = __LINE__; Verify(Method(mock, val)).Exactly(big); }); pattern = "mock.val( Any arguments )"; break;
        case 1: msg = messageOf([&]() { line = __LINE__; Verify(Method(mock, val).Using(e)).Exactly(big); }); pattern = cat("mock.val(", G::show(e), ")"); break;
        case 2: msg = messageOf([&]() { line = __LINE__; Verify(Method(mock, ref).Using(5, Ne(e))).Exactly(big); }); pattern = cat("mock.ref(5, !=", G::show(e), ")"); break;
        case 3: msg = messageOf([&]() { line = __LINE__; Verify(Method(mock, two).Using(_, Eq(e2))).Exactly(big); }); pattern = cat("mock.two(Any, ", G::show(e2), ")"); break;
        case 4: msg = messageOf([&]() { line = __LINE__; Verify(Method(mock, two).Using(e, Any<T>())).Exactly(big); }); pattern = cat("mock.two(", G::show(e), ", Any)"); break;
        case 5: msg = messageOf([&]() { line = __LINE__; Verify(Method(mock, val).Matching([](T &) { return true; })).Exactly(big); }); pattern = "mock.val( user defined matcher )"; break;
        case 6: msg = messageOf([&]() { line = __LINE__; Verify(Method(mock, val).Using(e) + Method(mock, two).Using(e, e2) * 2).AtLeast(big); }); pattern = cat("mock.val(", G::show(e), ") + mock.two(", G::show(e), ", ", G::show(e2), ") * 2"); break;
        case 7: msg = messageOf([&]() { line = __LINE__; Verify(Method(mock, val).Using(Gt(e)), Method(mock, val)).Exactly(big); }); pattern = cat("mock.val(>", G::show(e), ") ... mock.val( Any arguments )"); break;
        case 8: msg = messageOf([&]() { line = __LINE__; Verify(Method(mock, val)(e)).Exactly(big); }); pattern = cat("mock.val(", G::show(e), ")"); break;
    }
    // the number of matches is taken from the message (checked elsewhere); everything else is compared
    size_t p = msg.find("Actual matches  : ");
    if (p != std::string::npos) got = atoi(msg.c_str() + p + 18);
    c.log(cat(name, ": failing Verify(", pattern, ")"));
    c.eq(msg, where(line) + seqMessage(pattern, form == 6, big, got, calls), "message of the failing verification");
    if (!calls.empty()) c.nontrivial();
    // no-other-invocations
    msg = messageOf([&]() { line = __LINE__; VerifyNoOtherInvocations(mock); });
    c.eq(msg, calls.empty() ? std::string("no failure") : where(line) + noMoreMessage(calls), "no-other-invocations message");
    // unexpected calls
    Mock<IT<T>> fresh;
    msg = messageOf([&]() { fresh.get().two(e, e2); });
    c.eq(msg, "Unexpected method invocation: unknown()\n  An unmocked method was invoked. All used virtual methods must be stubbed!", "message of an unmocked call");
    When(Method(fresh, two).Using(e, e2)).Return("x");
    When(Method(fresh, ref).Matching([](int, const T &) { return false; })).Return();
    fresh.get().two(e, e2);
    msg = messageOf([&]() { fresh.get().two(e, e2); });
    c.eq(msg, cat("Unexpected method invocation: fresh.two(", G::show(e), ", ", G::show(e2), ")\n  Could not find any recorded behavior to support this method call."), "message of a used up stubbing");
    msg = messageOf([&]() { fresh.get().ref(-3, e); });
    c.eq(msg, cat("Unexpected method invocation: fresh.ref(-3, ", G::show(e), ")\n  Could not find any recorded behavior to support this method call."), "message of an unmatched call");
}
struct IS { virtual void s(const char *) = 0; virtual void d(double) = 0; virtual void n() = 0; virtual void many(int, bool, char, const char *, std::string, double, long, Shown, Hidden, int &) = 0; };
static void stringsCase(pbt::Ctx &c) {
    c.label("string and distance matchers");
    Mock<IS> mock;
    Fake(Method(mock, s), Method(mock, d), Method(mock, n), Method(mock, many));
    std::string e = texts()[c.draw((uint32_t) texts().size())];
    std::vector<std::string> calls;
    int cell = 4;
    if (c.coin()) { mock.get().s(texts()[1].c_str()); calls.push_back("mock.s(\"a\")"); }
    if (c.coin()) { mock.get().n(); calls.push_back("mock.n()"); }
    if (c.coin()) { mock.get().d(0.5); calls.push_back("mock.d(0.5)"); }
    if (c.coin()) { mock.get().many(1, true, 'x', "lit", "str", 2.5, -1, Shown{3}, Hidden{1}, cell); calls.push_back("mock.many(1, true, 'x', \"lit\", str, 2.5, -1, <shown 3>, ?, 4)"); }
    int line = 0; std::string msg, pattern;
    switch (c.range(0, 9)) {
        case 0: msg = messageOf([&]() { line = __LINE__; Verify(Method(mock, s).Using(StrEq(e))).Exactly(777); }); pattern = cat("mock.s(", e, ")"); break;
        case 1: msg = messageOf([&]() { line = __LINE__; Verify(Method(mock, s).Using(StrGt(e))).Exactly(777); }); pattern = cat("mock.s(>", e, ")"); break;
        case 2: msg = messageOf([&]() { line = __LINE__; Verify(Method(mock, s).Using(StrGe(e))).Exactly(777); }); pattern = cat("mock.s(>=", e, ")"); break;
        case 3: msg = messageOf([&]() { line = __LINE__; Verify(Method(mock, s).Using(StrLt(e))).Exactly(777); }); pattern = cat("mock.s(<", e, ")"); break;
        case 4: msg = messageOf([&]() { line = __LINE__; Verify(Method(mock, s).Using(StrLe(e))).Exactly(777); }); pattern = cat("mock.s(<=", e, ")"); break;
        case 5: msg = messageOf([&]() { line = __LINE__; Verify(Method(mock, s).Using(StrNe(e))).Exactly(777); }); pattern = cat("mock.s(!=", e, ")"); break;
        case 6: msg = messageOf([&]() { line = __LINE__; Verify(Method(mock, d).Using(ApproxEq(2.5, 0.25))).Exactly(777); }); pattern = "mock.d(2.5+/-0.25)"; break;
        case 7: msg = messageOf([&]() { line = __LINE__; Verify(Method(mock, n)).Exactly(777); }); pattern = "mock.n( Any arguments )"; break;
        case 8: msg = messageOf([&]() { line = __LINE__; Verify(Method(mock, many).Using(1, true, 'x', _, std::string("str"), 2.5, _, _, _, 4)).Exactly(777); }); pattern = "mock.many(1, true, 'x', Any, str, 2.5, Any, Any, Any, 4)"; break;
        case 9: msg = messageOf([&]() { line = __LINE__; Verify(Method(mock, d).Using(Ge(1.5)), Method(mock, d).Using(Le(-1.5)) + Method(mock, d).Using(Lt(3.0))).Exactly(777); }); pattern = "mock.d(>=1.5) ... mock.d(<=-1.5) + mock.d(<3)"; break;
    }
    size_t p = msg.find("Actual matches  : ");
    int got = p == std::string::npos ? -1 : atoi(msg.c_str() + p + 18);
    c.log(cat("failing Verify(", pattern, ")"));
    c.eq(msg, where(line) + seqMessage(pattern, false, 777, got, calls), "message of the failing verification");
    if (!calls.empty()) c.nontrivial();
}

#if PART == 2
#define TYPES(X) X(int) X(unsigned) X(float) X(double) X(bool) X(char) X(const char *) X(char *)
#else
#define TYPES(X) X(std::string) X(int *) X(const void *) X(Hidden) X(Shown) X(Special) X(Plain) X(Scoped) X(unsigned char)
#endif
static void oneCase(pbt::Ctx &c) {
    static void (*const cases[])(pbt::Ctx &, const char *) = {
#define X(T) typeCase<T>,
        TYPES(X)
#undef X
    };
    static const char *const names[] = {
#define X(T) #T,
        TYPES(X)
#undef X
    };
    const uint32_t n = sizeof(cases) / sizeof(cases[0]);
    uint32_t i = c.draw(n + 2);
    if (i >= n) stringsCase(c); else cases[i](c, names[i]);
}
#endif

PBT_MAIN("C15", oneCase)
