// C13: unexpected calls are always reported, to everybody once, and never answered.
// C29: the same where FAKEIT_ASSERT_ON_UNEXPECTED_METHOD_INVOCATION turns unexpected calls into failed assertions.
#include "cond.hpp"
#include <deque>
#include <csignal>
#include <fcntl.h>
#include <iostream>
#include <sys/wait.h>
#include <unistd.h>

#ifdef FAKEIT_ASSERT_ON_UNEXPECTED_METHOD_INVOCATION
#define PROPERTY "C29"
#else
#define PROPERTY "C13"
#endif
#if defined(FAKEIT_ASSERT_ON_UNEXPECTED_METHOD_INVOCATION) && !defined(NDEBUG)
static const bool asserting = true;
#else
static const bool asserting = false;
#endif

struct Big { long a; char t[40]; };
struct Base {
    virtual int f(int) = 0;
    virtual void v() = 0;
};
struct I : Base {
    virtual ~I() {}
    virtual std::string s(int, const std::string &) = 0;
    virtual Big b(int) = 0;
    virtual int &r(int, char) = 0;
    virtual bool q(int, int, int) const = 0;
    virtual std::unique_ptr<int> u(int) = 0;
    virtual double w(int, long long, short, float, bool, double) = 0;
    virtual std::vector<int> vec(int) const = 0;
    virtual void o(int, int &, int *) = 0;
};
enum { NMeth = 10 };
static const char *const mname[NMeth] = {"f", "v", "s", "b", "r", "q", "u", "w", "vec", "o"};

static int target = 5;
static const std::string texts[3] = {"text0", "text1", "text2"};   // recorded by reference, so they must live on

static std::string callText(int m, int x) {
    switch (m) {
        case 0: return cat("mock.f(", x, ")");
        case 1: return "mock.v()";
        case 2: return cat("mock.s(", x, ", text", x, ")");
        case 3: return cat("mock.b(", x, ")");
        case 4: return cat("mock.r(", x, ", 'c')");
        case 5: return cat("mock.q(", x, ", ", x + 1, ", ", x + 2, ")");
        case 6: return cat("mock.u(", x, ")");
        case 7: return cat("mock.w(", x, ", ", x + 10000000000LL, ", 7, 0.5, true, 2.25)");
        case 8: return cat("mock.vec(", x, ")");
    }
    return cat("mock.o(", x, ", 5, ", &target, ")");
}
static std::string perform(I &i, int m, int x) {
    switch (m) {
        case 0: { Base &b = i; b.f(x); break; }
        case 1: i.v(); break;
        case 2: i.s(x, texts[x]); break;
        case 3: i.b(x); break;
        case 4: i.r(x, 'c'); break;
        case 5: i.q(x, x + 1, x + 2); break;
        case 6: i.u(x); break;
        case 7: i.w(x, x + 10000000000LL, 7, 0.5f, true, 2.25); break;
        case 8: i.vec(x); break;
        case 9: i.o(x, target, &target); break;
    }
    return "returned";
}

struct StubF {
    Mock<I> &mock; int m; int n; const std::function<void()> *hook;
    template<class M> void operator()(const M &k) const {
        switch (m) {
            case 0: When(Method(mock, f).Using(k)).Return(fakeit::operator""_Times((unsigned long long) n)(1)); break;
            case 2: When(Method(mock, s).Using(k, _)).Return(fakeit::operator""_Times((unsigned long long) n)(std::string("x"))); break;
            case 3: When(Method(mock, b).Using(k)).Return(fakeit::operator""_Times((unsigned long long) n)(Big())); break;
            case 4: if (n == 1) When(Method(mock, r).Using(k, _)).Return(target); else When(Method(mock, r).Using(k, _)).Do(fakeit::operator""_Times((unsigned long long) n)([](int, char) -> int & { return target; })); break;
            case 5: When(Method(mock, q).Using(k, _, _)).Return(fakeit::operator""_Times((unsigned long long) n)(true)); break;
            case 6: When(Method(mock, u).Using(k)).Do(fakeit::operator""_Times((unsigned long long) n)([](int) { return std::unique_ptr<int>(); })); break;
            case 7: When(Method(mock, w).Using(k, _, _, _, _, _)).Return(fakeit::operator""_Times((unsigned long long) n)(1.0)); break;
            case 8: When(Method(mock, vec).Using(k)).Return(fakeit::operator""_Times((unsigned long long) n)(std::vector<int>(3))); break;
            case 9: When(Method(mock, o).Using(k, _, _)).Return(fakeit::operator""_Times((unsigned long long) n)); break;
        }
    }
};
static void stub(Mock<I> &mock, int m, bool has, const Cond &k, int n) {
    if (m == 1) { When(Method(mock, v)).Return(fakeit::operator""_Times((unsigned long long) n)); return; }
    Cond any; any.kind = 1; any.v = 0;
    withCondSmall(has ? k : any, StubF{mock, m, n, nullptr});
}
static void nameOnly(Mock<I> &mock, int m) {   // mentions the method without stubbing it
    bool ok = true;
    switch (m) {
        case 0: ok = Verify(Method(mock, f)).Any(); break;
        case 1: ok = Verify(Method(mock, v)).Any(); break;
        case 2: ok = Verify(Method(mock, s)).Any(); break;
        case 3: ok = Verify(Method(mock, b)).Any(); break;
        case 4: ok = Verify(Method(mock, r)).Any(); break;
        case 5: ok = Verify(Method(mock, q)).Any(); break;
        case 6: ok = Verify(Method(mock, u)).Any(); break;
        case 7: ok = Verify(Method(mock, w)).Any(); break;
        case 8: ok = Verify(Method(mock, vec)).Any(); break;
        case 9: ok = Verify(Method(mock, o)).Any(); break;
    }
    (void) ok;
}

static std::vector<std::string> trace;
static std::string describe(const UnexpectedMethodCallEvent &e) {
    return cat(e.getUnexpectedType() == UnexpectedType::Unmocked ? "unmocked " : "unmatched ", e.getInvocation().format());
}
struct Listener : EventHandler {
    int id;
    void handle(const SequenceVerificationEvent &) override { trace.push_back(cat("L", id, " sequence")); }
    void handle(const NoMoreInvocationsVerificationEvent &) override { trace.push_back(cat("L", id, " nomore")); }
    void handle(const UnexpectedMethodCallEvent &e) override { trace.push_back(cat("L", id, " ", describe(e))); }
};
struct Printer : EventFormatter {
    std::string format(const UnexpectedMethodCallEvent &e) override { return "L3 " + describe(e); }
    std::string format(const SequenceVerificationEvent &) override { return "L3 sequence"; }
    std::string format(const NoMoreInvocationsVerificationEvent &) override { return "L3 nomore"; }
};
struct Lines : std::streambuf {   // standard output, line by line, as part of the trace
    std::string line; std::streambuf *before;
    Lines() : before(std::cout.rdbuf(this)) {}
    ~Lines() { std::cout.rdbuf(before); }
    int overflow(int ch) override { if (ch == '\n') { trace.push_back(line); line.clear(); } else line += (char) ch; return ch; }
};
struct Adapter : EventHandler {
    int mode;   // 0 silent, 1 throws UserError, 2 throws string
    void handle(const SequenceVerificationEvent &) override { trace.push_back("A sequence"); }
    void handle(const NoMoreInvocationsVerificationEvent &) override { trace.push_back("A nomore"); }
    void handle(const UnexpectedMethodCallEvent &e) override {
        trace.push_back(cat("A ", describe(e)));
        if (mode == 1) throw UserError(9);
        if (mode == 2) throw std::string("from adapter");
    }
};
struct HistoryProbe : EventHandler {
    std::vector<std::string> all;
    void handle(const SequenceVerificationEvent &) override {}
    void handle(const NoMoreInvocationsVerificationEvent &e) override { for (auto *i : e.allIvocations()) all.push_back(i->format()); }
    void handle(const UnexpectedMethodCallEvent &) override {}
};
struct Cleanup { ~Cleanup() { Fakeit.clearEventHandlers(); Fakeit.resetTestingFrameworkAdapter(); } };

// The call is made in a child process; -> how it ended, and what the listeners heard before that.
static int endPipe = -1;
static void aborted(int) {
    std::string t = "aborted\n";
    for (auto &x : trace) if (x[0] == 'L') t += x + "; ";
    ssize_t n = write(endPipe, t.data(), t.size()); (void) n;
    _exit(0);
}
static std::string inChild(const std::function<std::string()> &call, std::string &heard) {
    int fd[2];
    if (pipe(fd)) return "no pipe";
    pid_t p = fork();
    if (p == 0) {
        close(fd[0]);
        endPipe = fd[1];
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 2);
        signal(SIGABRT, aborted);
        trace.clear();
        std::string t = outcome(call) + "\n";
        ssize_t n = write(fd[1], t.data(), t.size()); (void) n;
        _exit(0);
    }
    close(fd[1]);
    std::string all; char buf[4096]; ssize_t n;
    while ((n = read(fd[0], buf, sizeof buf)) > 0) all.append(buf, (size_t) n);
    close(fd[0]);
    int st = 0;
    waitpid(p, &st, 0);
    size_t e = all.find('\n');
    if (p < 0 || e == std::string::npos || !WIFEXITED(st)) return "ended abnormally";
    heard = all.substr(e + 1);
    return all.substr(0, e);
}

struct S { bool has; Cond k; int left; };

static void oneCase(pbt::Ctx &c) {
    Cleanup cleanup;
    Listener ls[3]; for (int i = 0; i < 3; i++) ls[i].id = i;
    Adapter ad; ad.mode = 0;
    Printer printer;
    DefaultEventLogger logger(printer);   // listener 3
    Lines lines;
    std::vector<int> active;
    int adapter = 0;   // 0 default, else ad
    Mock<I> mock;
    std::vector<S> stubs[NMeth];
    bool bound[NMeth] = {};
    std::vector<std::string> recorded;
    int ops = 0, unexpected = 0, answered = 0;
    std::vector<int> pool;   // the methods this case is about
    int np = c.range(1, 4);
    for (int i = 0; i < np; i++) pool.push_back(c.range(0, NMeth - 1));
    while (ops < 40 && c.more(16)) {
        pbt::Span sp(c);
        ops++;
        switch (c.weighted({5, 12, 2, 2, 1, 1, 1})) {
            case 0: {
                int m = c.pick(pool);
                S s; s.has = m != 1 && c.coin(); s.k.kind = 0; s.k.v = 0;
                if (s.has) s.k = normSmall(genCond(c, 0, 2));
                s.left = c.range(0, 3);
                c.log(cat("When(", mname[m], s.has ? cat("(", s.k.text(), ")") : std::string(), ") ", s.left, " times"));
                stub(mock, m, s.has, s.k, s.left);
                stubs[m].push_back(s);
                bound[m] = true;
                break;
            }
            case 1: {
                int m = c.chance(1, 8) ? c.range(0, NMeth - 1) : c.pick(pool), x = c.range(0, 2);
                S *hit = nullptr;
                for (size_t i = stubs[m].size(); i-- > 0;) if (!stubs[m][i].has || stubs[m][i].k.accepts(x)) { hit = &stubs[m][i]; break; }
                std::string want; std::vector<std::string> wantTrace;
                if (asserting && !(hit && hit->left > 0)) {
                    std::string d = bound[m] ? cat("unmatched ", callText(m, x)) : std::string("unmocked unknown()"), heard, wantHeard;
                    for (int i : active) wantHeard += cat("L", i, " ", d, "; ");
                    std::string got = inChild([&]() { return perform(mock.get(), m, x); }, heard);
                    unexpected++;
                    c.label(hit ? "used up" : bound[m] ? "not accepted" : "never stubbed");
                    c.log(cat("call ", mname[m], "(", x, ") in a child process -> ", got));
                    c.eq(got, std::string("aborted"), cat("call of ", mname[m]));
                    c.eq(heard, wantHeard, "notifications of listeners before the failed assertion");
                    break;
                }
                if (hit) recorded.push_back(callText(m, x));
                if (hit && hit->left > 0) { hit->left--; want = "returned"; answered++; }
                else {
                    std::string d = bound[m] ? cat("unmatched ", callText(m, x)) : std::string("unmocked unknown()");
                    for (int i : active) wantTrace.push_back(cat("L", i, " ", d));
                    if (adapter) wantTrace.push_back(cat("A ", d));
                    want = !adapter || ad.mode == 0 ? "unexpected" : ad.mode == 1 ? "throw UserError 9" : "throw string from adapter";
                    unexpected++;
                    c.label(hit ? "used up" : bound[m] ? "not accepted" : "never stubbed");
                }
                trace.clear();
                std::string got = outcome([&]() { return perform(mock.get(), m, x); });
                c.log(cat("call ", mname[m], "(", x, ") -> ", got));
                c.eq(got, want, cat("call of ", mname[m]));
                std::string a, b;
                for (auto &t : trace) a += t + "; ";
                for (auto &t : wantTrace) b += t + "; ";
                c.eq(a, b, "notifications");
                break;
            }
            case 2: {
                int i = c.range(0, 3);
                if (i == 3) Fakeit.addEventHandler(logger); else Fakeit.addEventHandler(ls[i]);
                active.push_back(i);
                c.log(cat("add listener ", i));
                break;
            }
            case 3:
                adapter = c.range(0, 1);
                ad.mode = c.range(0, 2);
                if (adapter) Fakeit.setTestingFrameworkAdapter(ad); else Fakeit.resetTestingFrameworkAdapter();
                c.log(cat("adapter ", adapter ? cat("mode ", ad.mode) : std::string("default")));
                break;
            case 4:
                Fakeit.clearEventHandlers();
                active.clear();
                c.log("clear listeners");
                break;
            case 5: {
                int m = c.pick(pool);
                nameOnly(mock, m);
                bound[m] = true;
                c.log(cat("name ", mname[m], " in a verification"));
                // an 'any' verification verifies the calls of that method
                break;
            }
            case 6:
                mock.Reset();
                for (int m = 0; m < NMeth; m++) { stubs[m].clear(); bound[m] = false; }
                recorded.clear();
                c.log("Reset()");
                break;
        }
    }
    c.nontrivialIf(unexpected >= 1 && answered >= 1);
    // the history holds exactly the accepted calls
    Fakeit.clearEventHandlers();
    Fakeit.resetTestingFrameworkAdapter();
    HistoryProbe probe;
    Fakeit.addEventHandler(probe);
    stub(mock, 1, false, Cond(), 1);
    mock.get().v();
    recorded.push_back("mock.v()");
    outcome([&]() -> std::string { VerifyNoOtherInvocations(mock); return ""; });
    std::string a, b;
    for (auto &t : probe.all) a += t + "; ";
    for (auto &t : recorded) b += t + "; ";
    c.eq(a, b, "recorded calls");
}

PBT_MAIN(PROPERTY, oneCase)
