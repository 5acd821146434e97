// C22: every test-framework adapter turns failing verifications and unexpected calls into failures of the running test.
#include "fw/fw.hpp"
#include "fw/world.hpp"
using pbt::cat;

// remembers what the adapter has to report
struct Witness : EventHandler {
    bool custom; int events; std::string kind, text, file; long line;
    Witness() : custom(false), events(0), line(0) {}
    template<class E> std::string render(const E &e, const char *k) {
        if (custom) return cat("[custom % {} ", k, "]\nsecond line");
        DefaultEventFormatter d;
        return static_cast<EventFormatter &>(d).format(e);
    }
    void handle(const UnexpectedMethodCallEvent &e) override { events++; kind = "unexpected"; text = render(e, "unexpected"); file = ""; line = 0; }
    void handle(const SequenceVerificationEvent &e) override { events++; kind = "verify"; text = render(e, "verify"); file = e.file(); line = e.line(); }
    void handle(const NoMoreInvocationsVerificationEvent &e) override { events++; kind = "nomore"; text = render(e, "nomore"); file = e.file(); line = e.line(); }
};
struct Custom : EventFormatter {
    Witness w;
    Custom() { w.custom = true; }
    std::string format(const UnexpectedMethodCallEvent &e) override { return w.render(e, "unexpected"); }
    std::string format(const SequenceVerificationEvent &e) override { return w.render(e, "verify"); }
    std::string format(const NoMoreInvocationsVerificationEvent &e) override { return w.render(e, "nomore"); }
};

static STATEMENTS(plainSite)
#line 1 "first.cpp"
static STATEMENTS(firstLine)
#line 123456 "/a dir/with %s/od{d} name.cxx"
static STATEMENTS(oddSite)
#line 200 "c22.cpp"

static void examine(pbt::Ctx &c, const fw::Captured &r, bool fails, bool call, const Witness &w, int before, const Site &site) {
    if (!fails) {
        c.eq(r.failures.size(), (size_t) 0, "failures recorded for something that is fine");
        c.check(!r.escaped, cat("exception although nothing is wrong: ", r.exception));
        c.eq(w.events - before, 0, "events");
        return;
    }
    c.eq(w.events - before, 1, "events seen by the listener");
    c.eq(r.failures.size(), (size_t) 1, "failures recorded by the framework");
    const fw::Failure &f = r.failures[0];
    c.check(f.text.find(w.text) != std::string::npos, cat("the failure does not contain the message: got [", f.text, "] expected [", w.text, "]"));
    if (call) {
        c.check(r.escaped, "the unexpected call returned");
        return;
    }
    c.eq(w.file, std::string(site.file), "file in the event");
    c.eq(w.line, site.line, "line in the event");
    if (fw::Throws) c.check(r.escaped, "no exception although the framework ends tests with exceptions");
    else c.check(!r.escaped, cat("exception: ", r.exception));
    c.eq(r.exception, "", "foreign exception");
    if (fw::Locates) {
        if (f.located) { c.eq(f.file, std::string(site.file), "file of the failure"); c.eq(f.line, site.line, "line of the failure"); }
        else c.check(f.text.find(cat(site.file, ":", site.line)) != std::string::npos, cat("location missing in [", f.text, "]"));
    }
}

static void oneCase(pbt::Ctx &c) {
    struct Clean { ~Clean() { Fakeit.clearEventHandlers(); Fakeit.resetCustomEventFormatter(); } } clean;
    Witness witness;
    Custom custom;
    Fakeit.addEventHandler(witness);
    World w;
    int ops = 0, bad = 0, good = 0, sites = 0;
    bool usedCustom = false;
    while (ops < 40 && c.more(14)) {
        pbt::Span sp(c);
        ops++;
        int k = c.range(0, 1), before = witness.events;
        Mock<Api> &mock = w.mocks[k];
        switch (c.weighted({3, 8, 10, 1})) {
            case 0:
                if (c.coin()) {
#ifdef SHIPPED   // headers generated before some fixes in the sources
                    if (w.stubF[k]) break;
                    w.onlyF[k] = c.coin() ? -1 : c.range(0, 3);
                    w.stubF[k] = true;
                    if (w.onlyF[k] < 0) When(Method(mock, f)).AlwaysReturn(5); else When(Method(mock, f).Using(w.onlyF[k])).AlwaysReturn(5);
                    c.log(cat("mock ", k, ": f stubbed ", w.onlyF[k]));
                    break;
#endif
                    w.onlyF[k] = c.coin() ? -1 : c.range(0, 3);
                    mock.Reset();
                    w.stubF[k] = true; w.stubG[k] = false;
                    std::vector<Call> rest;
                    for (auto &x : w.calls) if (x.mock != k) rest.push_back(x);
                    w.calls.swap(rest);
                    if (w.onlyF[k] < 0) When(Method(mock, f)).AlwaysReturn(5); else When(Method(mock, f).Using(w.onlyF[k])).AlwaysReturn(5);
                    c.log(cat("mock ", k, ": reset, f stubbed ", w.onlyF[k]));
                } else { Fake(Method(mock, g)); w.stubG[k] = true; c.log(cat("mock ", k, ": Fake(g)")); }
                break;
            case 1: {
                bool isF = c.coin();
                int x = isF ? c.range(0, 3) : c.range(0, NT - 1);
                bool fine = isF ? w.stubF[k] && (w.onlyF[k] < 0 || w.onlyF[k] == x) : w.stubG[k];
                Api &api = mock.get();
                bool other = c.coin();
                fw::Captured r = fw::capture([&] { if (other) otherCall(api, isF, x); else if (isF) api.f(x); else api.g(texts[x]); });
                c.log(cat("mock ", k, isF ? ".f(" : ".g(", x, ") ", fine ? "answered" : "unexpected"));
                examine(c, r, !fine, true, witness, before, Site());
                if (fine) { w.calls.push_back(Call{k, isF, x, false}); good++; } else bad++;
                break;
            }
            case 2: {
                int what = c.range(0, 5), arg = what == 1 || what == 5 ? c.range(0, 3) : what == 2 ? c.range(0, NT - 1) : 0, how = c.range(0, 2), n = c.range(0, 3), site = c.range(0, 3);
                // a mock's methods are stubbed in this translation unit before the other one names them
                if (site == 3 && what != 3 && what != 4 && !(what == 2 ? w.stubG[k] : w.stubF[k])) site = 0;
                bool passes = true;
                if (what <= 2 || what == 5) {
                    int m = 0;
                    for (auto &x : w.calls) if (x.mock == k && x.isF == (what != 2) && (what == 0 || x.x == arg)) m++;
                    if (c.coin()) n = m;
                    if (what == 5) how = 0;
#ifdef SHIPPED
                    if (how == 1 && n == 0) n = 1;
#endif
                    passes = how == 0 ? m == n : how == 1 ? m >= n : m == 0;
                    if (passes) for (auto &x : w.calls) if (x.mock == k && x.isF == (what != 2) && (what == 0 || x.x == arg)) x.verified = true;
                } else for (auto &x : w.calls) if (!x.verified && (what == 4 || x.mock == k)) passes = false;
                Site s = Site();
                c.log(cat("mock ", k, ": statement ", what, " arg ", arg, " form ", how, " n ", n, passes ? " passes" : " fails"));
                fw::Captured r = fw::capture([&] { (site == 0 ? plainSite : site == 1 ? firstLine : site == 2 ? oddSite : otherUnit)(w, k, what, arg, how, n, s); });
                if (what == 5) {   // only asked, nobody may hear of it
                    examine(c, r, false, false, witness, before, s);
                    c.eq(s.line, passes ? 1L : 0L, "answer");
                } else examine(c, r, !passes, false, witness, before, s);
                if (passes) good++; else { bad++; sites |= 1 << site; }
                break;
            }
            case 3:
#if defined(SHIPPED) && defined(FW_CATCH)
                break;
#endif
                witness.custom = !witness.custom;
                if (witness.custom) { Fakeit.setCustomEventFormatter(custom); usedCustom = true; } else Fakeit.resetCustomEventFormatter();
                c.log(witness.custom ? "custom formatter" : "default formatter");
                break;
        }
    }
    c.label(cat(bad ? "failing" : "nothing failed", usedCustom ? ", custom formatter" : ""));
    c.nontrivialIf(bad && good);
}

FW_MAIN("C22", oneCase)
