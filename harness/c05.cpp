// C05: a verification examines exactly the selected calls, in the order they were made.
#include "sources.hpp"

// Objects passed by reference change after the calls. A filter kept in a variable selects the calls its own stubbing
// answered; any other filter looks at the objects as they are.
struct Box { int v; bool operator==(const Box &o) const { return v == o.v; } };
static std::ostream &operator<<(std::ostream &s, const Box &b) { return s << "Box" << b.v; }
struct Takes { virtual int p(const Box &) = 0; virtual void q(Box &, int) = 0; };

template<class M, class Make> struct Kept {
    struct FilterM { decltype(std::declval<Make>()()) ctx; int id; int cond; };   // cond < 0: any
    struct HandlerM { int id, cond; };
    struct CallM { int box, id; bool verified; };
    pbt::Ctx &c; Mock<Takes> &mock; Make make; M apply; const char *name; std::vector<Box> &boxes; int &serial;
    std::vector<FilterM> filters; std::vector<HandlerM> handlers; std::vector<CallM> calls;
    Kept(pbt::Ctx &cc, Mock<Takes> &m, Make k, M a, const char *n, std::vector<Box> &b, int &s) : c(cc), mock(m), make(k), apply(a), name(n), boxes(b), serial(s) { filters.reserve(4); }
    bool selects(int id, int cond, const CallM &k) const { return cond < 0 || k.id == id || boxes[(size_t) k.box].v == cond; }
    void restrict(FilterM &f) {
        f.id = ++serial; f.cond = c.range(0, 2);
        int form = c.range(0, 2);
        apply.restrict(f.ctx, Box{f.cond}, form);
        c.log(cat("filter ", f.id, " of ", name, ": ", form == 0 ? "Using(" : form == 1 ? "Using(Eq(" : "Matching(", f.cond, ")"));
    }
    void step() {
        int what = (int) c.weighted({3, 4, 8, 6, 2});
        if (filters.empty() || (what == 0 && filters.size() < 4)) {
            filters.push_back(FilterM{make(), 0, -1});
            if (c.chance(4, 5)) restrict(filters.back()); else c.log(cat("filter of all calls of ", name));
            return;
        }
        FilterM &f = filters[(size_t) c.range(0, (int) filters.size() - 1)];
        if (what == 0) { restrict(f); return; }
        if (what == 1) {
            apply.stub(f.ctx, c.coin());
            handlers.push_back(HandlerM{f.id, f.cond});
            c.log(cat("stub ", name, " by filter ", f.id));
        } else if (what == 2) {
            int b = c.range(0, (int) boxes.size() - 1), by = -1;
            for (auto &h : handlers) if (h.cond < 0 || h.cond == boxes[(size_t) b].v) by = h.id;
            std::string got = outcome([&]() -> std::string { apply.call(mock.get(), boxes[(size_t) b]); return "answered"; });
            c.log(cat("call ", name, "(box ", b, " = ", boxes[(size_t) b].v, ") -> ", got));
            c.eq(got, by < 0 ? "unexpected" : "answered", "call");
            if (by >= 0) calls.push_back(CallM{b, by, false});
        } else if (what == 3) {
            int n = 0, bad = c.chance(1, 4) ? 1 : 0;
            for (auto &k : calls) if (selects(f.id, f.cond, k)) n++;
            bool got = Verify(f.ctx).Exactly(n + bad);
            c.log(cat("Verify(filter ", f.id, " of ", name, ").Exactly(", n + bad, ") -> ", got));
            c.eq(got, !bad, "number of calls selected by a kept filter");
            if (got) for (auto &k : calls) if (selects(f.id, f.cond, k)) k.verified = true;
            c.nontrivialIf(n >= 1 && n < (int) calls.size());
        } else {
            bool all = true;
            for (auto &k : calls) if (selects(f.id, f.cond, k) && !k.verified) all = false;
            bool got = VerifyNoOtherInvocations(f.ctx);
            c.log(cat("VerifyNoOtherInvocations(filter ", f.id, " of ", name, ") -> ", got));
            c.eq(got, all, "no other calls of a kept filter");
        }
    }
};
struct OfP {
    template<class C> void restrict(C &x, const Box &b, int form) { if (form == 0) x.Using(b); else if (form == 1) x.Using(Eq(b)); else { int v = b.v; x.Matching([v](const Box &o) { return o.v == v; }); } }
    template<class C> void stub(C &x, bool fake) { if (fake) Fake(x); else When(x).AlwaysReturn(1); }
    void call(Takes &t, Box &b) { t.p(b); }
};
struct OfQ {
    template<class C> void restrict(C &x, const Box &b, int form) { if (form == 0) x.Using(b, 1); else if (form == 1) x.Using(Eq(b), Any<int>()); else { int v = b.v; x.Matching([v](Box &o, int) { return o.v == v; }); } }
    template<class C> void stub(C &x, bool fake) { if (fake) Fake(x); else When(x).AlwaysReturn(); }
    void call(Takes &t, Box &b) { t.q(b, 1); }
};
template<class M, class Make> Kept<M, Make> kept(pbt::Ctx &c, Mock<Takes> &m, Make k, M a, const char *n, std::vector<Box> &b, int &s) { return Kept<M, Make>(c, m, k, a, n, b, s); }
static void keptCase(pbt::Ctx &c) {
    std::vector<Box> boxes(3, Box{0});
    Mock<Takes> mock;
    int serial = 0, ops = 0;
    auto p = kept(c, mock, [&mock] { return Method(mock, p); }, OfP(), "p", boxes, serial);
    auto q = kept(c, mock, [&mock] { return Method(mock, q); }, OfQ(), "q", boxes, serial);
    while (ops < 30 && c.more(10)) {
        pbt::Span sp(c);
        ops++;
        if (c.chance(1, 6)) {
            int b = c.range(0, 2), v = c.range(0, 2);
            boxes[(size_t) b].v = v;
            c.log(cat("box ", b, " = ", v));
        } else if (c.chance(1, 25)) {
            mock.ClearInvocationHistory();
            p.calls.clear(); q.calls.clear();
            c.log("ClearInvocationHistory()");
        } else if (c.coin()) p.step(); else q.step();
    }
    c.label("kept filters over changing objects");
}

static void oneCase(pbt::Ctx &c) {
    if (c.chance(1, 6)) return keptCase(c);
    Mocks w;
    Recorder rec;
    ListenTo listen(rec);
    std::vector<Call> hist;
    GenOpts o;
    o.mocks = c.range(2, 4); o.lo = 0; o.hi = 40; o.maxDepth = 1;
    int ops = 0, serial = 0;
    auto call = [&](int mock, int method) {
        int x = serial++;   // unique argument: identifies the call
        w.call(mock, method, x);
        hist.push_back(Call{mock, method, x, false, x});
        c.log(cat("call ", letterName[mock][method], "(", x, ")"));
    };
    while (ops < 30 && c.more(12)) {
        pbt::Span sp(c);
        ops++;
        uint32_t what = c.weighted({16, 4, 8, 4, 2, 1});
        if (what == 0) call(c.range(0, o.mocks - 1), c.range(0, 1));
        else if (what == 1) { int n = c.range(2, 6); for (int i = 0; i < n; i++) call(c.range(0, o.mocks - 1), c.range(0, 1)); }
        else if (what == 2) {   // what is examined, and the verdict
            SeqPool pool;
            std::vector<PatternM> ps = genPatterns(c, pool, w, o, hist);
            Scope s = genScope(c, pool, w, o, hist);
            std::vector<Call> seen;
            std::vector<std::string> want;
            for (auto &k : hist) if (s.selects(ps, k)) { seen.push_back(k); want.push_back(callText("", k)); }
            int n = countMatches(ps, seen).count;
            rec.reset();
            Request r; r.form = 1; r.n = n + 1;   // always fails, so the examined calls are reported
            std::string got = verifyScoped(s, ps, r, 2);
            c.log(cat(s.text(), patternText(ps), ")", r.text(), " -> ", got, " examined: ", joined(rec.examined)));
            c.eq(got, "fail", "verdict of one more than there are");
            c.eq(rec.sequences, 1, "number of failure events");
            c.eq(joined(rec.examined), joined(want), "examined calls");
            c.eq(rec.actualCount, n, "reported number of matches");
            r.n = n;
            c.eq(verifyScoped(s, ps, r, 0), "pass", "verdict of the right count");
            // that one passed: its calls are verified now
            {
                MatchResult m = countMatches(ps, seen);
                for (size_t i : m.used) for (auto &k : hist) if (k.serial == seen[i].serial) k.verified = true;
            }
            std::unordered_set<int> mocks;
            for (auto &k : hist) mocks.insert(k.mock);
            c.nontrivialIf(mocks.size() >= 2 && seen.size() >= 1 && (seen.size() < hist.size() || s.sources.size() >= 2));
            c.label(s.mode == 0 ? "Verify" : s.mode == 2 ? "Unverified.Verify" : cat("Using ", s.sources.size(), " sources"));
            c.label(seen.empty() ? "nothing examined" : seen.size() == hist.size() ? "all examined" : "part examined");
        } else if (what == 3) {   // no-other-invocations: examined and unverified calls
            SeqPool pool;
            std::vector<SourceM> q = genSources(c, pool, w, o, hist, 4);
            std::vector<std::string> all, unv;
            for (auto &k : hist) if (anySelects(q, k)) { all.push_back(callText("", k)); if (!k.verified) unv.push_back(callText("", k)); }
            rec.reset();
            std::string got = verifyNoMore(q, 2);
            c.log(cat("VerifyNoOtherInvocations(", sourcesText(q), ") -> ", got));
            c.eq(got, unv.empty() ? "pass" : "fail", "no-other-invocations verdict");
            c.eq(rec.noMore, unv.empty() ? 0 : 1, "number of failure events");
            if (!unv.empty()) {
                c.eq(joined(rec.examined), joined(all), "examined calls");
                c.eq(joined(rec.unverified), joined(unv), "unverified calls");
            }
        } else {   // forget the calls of one mock
            int m = c.range(0, o.mocks - 1);
            if (what == 5) {   // start one anew, possibly after many others
                int others = c.coin() ? c.range(0, 130) : 0;
                for (int i = 0; i < others; i++) { Mock<IA> x; Fake(Method(x, a), Method(x, b)); }
                w.reset(m);
                c.log(cat("stub ", others, " other mocks, m", m, ".Reset() and stub again"));
            }
            w.clear(m);
            std::vector<Call> rest;
            for (auto &k : hist) if (k.mock != m) rest.push_back(k);
            hist = rest;
            c.log(cat("m", m, ".ClearInvocationHistory()"));
        }
    }
}

PBT_MAIN("C05", oneCase)
