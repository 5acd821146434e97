// C14: each verification is evaluated once; failures notify every listener and the adapter once, with the facts.
#include "sources.hpp"
#include <iostream>

static std::vector<std::string> trace;
static std::string base(const char *f) { std::string s(f); return s.substr(s.rfind('/') + 1); }
static std::string describe(const SequenceVerificationEvent &e) {
    std::string t = cat(e.verificationType() == VerificationType::Exact ? "exact" : e.verificationType() == VerificationType::AtLeast ? "atleast" : "other",
                        " want ", e.expectedCount(), " got ", e.actualCount(), " patterns ", e.expectedPattern().size(),
                        " at ", base(e.file()), ":", e.line(), " ", e.callingMethod(), " examined");
    for (auto *i : e.actualSequence()) t += " " + i->format();
    return t;
}
static std::string describe(const NoMoreInvocationsVerificationEvent &e) {
    std::string t = cat(e.verificationType() == VerificationType::NoMoreInvocations ? "nomore" : "other", " at ", base(e.file()), ":", e.line(), " ", e.callingMethod(), " all");
    for (auto *i : e.allIvocations()) t += " " + i->format();
    t += " unverified";
    for (auto *i : e.unverifedIvocations()) t += " " + i->format();
    return t;
}
struct Listener : EventHandler {
    int id;
    void handle(const SequenceVerificationEvent &e) override { trace.push_back(cat("L", id, " ", describe(e))); }
    void handle(const NoMoreInvocationsVerificationEvent &e) override { trace.push_back(cat("L", id, " ", describe(e))); }
    void handle(const UnexpectedMethodCallEvent &) override { trace.push_back(cat("L", id, " unexpected")); }
};
struct Adapter : EventHandler {
    int mode;
    void end() { if (mode == 1) throw UserError(7); if (mode == 2) throw std::string("adapter"); }
    void handle(const SequenceVerificationEvent &e) override { trace.push_back(cat("A ", describe(e))); end(); }
    void handle(const NoMoreInvocationsVerificationEvent &e) override { trace.push_back(cat("A ", describe(e))); end(); }
    void handle(const UnexpectedMethodCallEvent &) override { trace.push_back("A unexpected"); end(); }
};
struct Formatter2 : EventFormatter {
    std::string format(const UnexpectedMethodCallEvent &) override { return "custom unexpected"; }
    std::string format(const SequenceVerificationEvent &e) override { return cat("custom ", describe(e)); }
    std::string format(const NoMoreInvocationsVerificationEvent &e) override { return cat("custom ", describe(e)); }
};
// standard output, line by line, as part of the trace
struct Lines : std::streambuf {
    std::string line; std::streambuf *before;
    Lines() : before(std::cout.rdbuf(this)) {}
    ~Lines() { std::cout.rdbuf(before); }
    int overflow(int ch) override { if (ch == '\n') { trace.push_back("L3 " + line); line.clear(); } else line += (char) ch; return ch; }
};
struct Cleanup { ~Cleanup() { Fakeit.clearEventHandlers(); Fakeit.resetTestingFrameworkAdapter(); Fakeit.resetCustomEventFormatter(); } };

static int site;   // line of the statement that ran last
static const char *siteFunc;

// a few statement sites, each knowing its own line
static std::string siteOne(const Scope &s, const std::vector<PatternM> &ps, const Request &r, int delivery) {
    siteFunc = __func__;
    if (s.mode == 1) {
        site = __LINE__; return deliver(Using(*s.sources[0].src).Verify(*ps[0].seq), r, delivery);
    }
    if (s.mode == 2) {
        site = __LINE__; return deliver(Unverified.Verify(*ps[0].seq), r, delivery);
    }
    if (ps.size() == 1) {
        site = __LINE__; return deliver(Verify(*ps[0].seq), r, delivery);
    }
    site = __LINE__; return deliver(Verify(*ps[0].seq, *ps[1].seq), r, delivery);
}
static std::string siteTwo(const Scope &s, const std::vector<PatternM> &ps, const Request &r, int delivery) {
    siteFunc = __func__;
    // evaluated when the variable is read or goes out of scope
    if (s.mode == 1) { site = __LINE__; auto p = Using(*s.sources[0].src).Verify(*ps[0].seq); return deliver(p, r, delivery); }
    if (s.mode == 2) { site = __LINE__; auto p = Unverified.Verify(*ps[0].seq); return deliver(p, r, delivery); }
    if (ps.size() == 1) { site = __LINE__; auto p = Verify(*ps[0].seq); return deliver(p, r, delivery); }
    site = __LINE__; auto p = Verify(*ps[0].seq, *ps[1].seq); return deliver(p, r, delivery);
}
static std::string siteNoMore(const std::vector<SourceM> &q, int delivery) {
    siteFunc = __func__;
    if (q.size() == 1) {
        site = __LINE__; return deliverNoMore(VerifyNoOtherInvocations(*q[0].src), delivery);
    }
    site = __LINE__; return deliverNoMore(VerifyNoOtherInvocations(*q[0].src, *q[1].src), delivery);
}

// like outcome(), with the text of standalone verification exceptions
template<class F> std::string detailed(F f) {
    try { return f(); }
    catch (const SequenceVerificationException &e) { return cat("sequence-exception ", base(e.file().c_str()), ":", e.line(), " ", e.callingMethod(), " | ", e.what()); }
    catch (const NoMoreInvocationsVerificationException &e) { return cat("nomore-exception ", base(e.file().c_str()), ":", e.line(), " ", e.callingMethod(), " | ", e.what()); }
    catch (const UserError &e) { return cat("throw UserError ", e.code); }
    catch (const std::string &s) { return cat("throw string ", s); }
}
template<class F> std::string inContext(int where, F f) {
    if (where == 1) { try { throw 3; } catch (int) { return detailed(f); } }   // inside an exception handler
    return detailed(f);
}

static void oneCase(pbt::Ctx &c) {
    Cleanup cleanup;
    Listener ls[3]; for (int i = 0; i < 3; i++) ls[i].id = i;
    Adapter ad; ad.mode = 0; Formatter2 fm;
    DefaultEventLogger logger(fm);
    Lines lines;
    std::vector<int> active;
    bool custom = false, formatter = false;
    Mocks w;
    std::vector<Call> hist;
    GenOpts o;
    o.mocks = 2; o.lo = 0; o.hi = 2; o.maxDepth = 1;
    int ops = 0, serial = 0, failing = 0, passing = 0;
    while (ops < 30 && c.more(14)) {
        pbt::Span sp(c);
        ops++;
        uint32_t what = c.weighted({6, 6, 3, 3, 1, 2, 1});
        if (what == 0) {
            int m = c.range(0, o.mocks - 1), f = c.range(0, 1), x = c.range(o.lo, o.hi);
            w.call(m, f, x);
            hist.push_back(Call{m, f, x, false, serial++});
            c.log(cat("call ", letterName[m][f], "(", x, ")"));
        } else if (what == 1 || what == 2) {
            SeqPool pool;
            std::vector<PatternM> ps;
            Scope s;
            std::vector<SourceM> q;
            std::string ev, want;
            bool pass;
            int delivery = c.weighted({2, 1, 5, 1}), where = c.range(0, 1), variable = 0;
            trace.clear();
            std::string got;
            std::vector<Call> seen;
            MatchResult m;
            if (what == 1) {
                ps = genPatterns(c, pool, w, o, hist);
                s.mode = (int) c.weighted({3, 1, 1});
                if (s.mode == 1) s.sources = genSources(c, pool, w, o, hist, 1);
                size_t max = s.mode == 0 ? 2 : 1;
                if (ps.size() > max) ps.resize(max);
                for (auto &k : hist) if (s.selects(ps, k)) seen.push_back(k);
                m = countMatches(ps, seen);
                Request r = genRequest(c, m.count);
                pass = r.accepts(m.count);
                variable = c.range(0, 1);
                got = inContext(where, [&]() -> std::string { return variable ? siteTwo(s, ps, r, delivery) : siteOne(s, ps, r, delivery); });
                ev = cat(r.atLeast() ? "atleast" : "exact", " want ", r.number(), " got ", m.count, " patterns ", ps.size(), " at c14.cpp:", site, " ", siteFunc, " examined");
                for (auto &k : seen) ev += " " + callText("", k);
                c.log(cat(s.text(), patternText(ps), ")", r.text(), " delivery ", delivery, variable ? " (variable)" : "", where ? " (in handler)" : "", " -> ", got.substr(0, got.find('|'))));
            } else {
                q = genSources(c, pool, w, o, hist, 2);
                got = inContext(where, [&]() -> std::string { return siteNoMore(q, delivery); });
                std::string all, unv;
                for (auto &k : hist) if (anySelects(q, k)) { all += " " + callText("", k); if (!k.verified) unv += " " + callText("", k); }
                pass = unv.empty();
                ev = cat("nomore at c14.cpp:", site, " ", siteFunc, " all", all, " unverified", unv);
                c.log(cat("VerifyNoOtherInvocations(", sourcesText(q), ") delivery ", delivery, where ? " (in handler)" : "", " -> ", got.substr(0, got.find('|'))));
            }
            std::vector<std::string> wantTrace;
            if (delivery == 3) want = "throw UserError 1";
            else if (delivery != 2) want = pass ? "pass" : "fail";
            else if (pass) want = "pass";
            else {
                failing++;
                for (int i : active) wantTrace.push_back(cat("L", i, i == 3 ? " custom " : " ", ev));
                if (custom) wantTrace.push_back("A " + ev);
                if (!custom) want = cat(what == 1 ? "sequence-exception" : "nomore-exception", " c14.cpp:", site, " ", siteFunc);
                else want = ad.mode == 0 ? "pass" : ad.mode == 1 ? "throw UserError 7" : "throw string adapter";
            }
            if (pass && delivery == 2) passing++;
            if (!custom && delivery == 2 && !pass) {
                c.eq(got.substr(0, got.find(" | ")), want, "exception of the standalone adapter");
                std::string text = got.substr(got.find(" | ") + 3);
                c.check(text.find(cat("c14.cpp:", site, ": ")) != std::string::npos, cat("message carries the location: ", text));
                if (formatter) {
                    std::string tail = cat("c14.cpp:", site, ": custom ", ev);
                    c.check(text.size() >= tail.size() && text.substr(text.size() - tail.size()) == tail, cat("message made by the custom formatter: ", text, " expected ", tail));
                } else c.check(text.find("custom") == std::string::npos, "default formatter restored");
            } else c.eq(got, want, "result of the statement");
            std::string a, b;
            for (auto &t : trace) a += t + "; ";
            for (auto &t : wantTrace) b += t + "; ";
            c.eq(a, b, "notifications");
            if (what == 1 && pass && delivery != 3) for (size_t i : m.used) for (auto &k : hist) if (k.serial == seen[i].serial) k.verified = true;
            c.label(cat(what == 1 ? "sequence " : "no-more ", pass ? "pass" : "fail", delivery == 2 ? "" : delivery == 3 ? " cancelled" : " boolean"));
        } else if (what == 3) {
            int i = (int) c.weighted({3, 3, 3, 2});   // 3: the library's own logger
            if (i == 3) Fakeit.addEventHandler(logger); else Fakeit.addEventHandler(ls[i]);
            active.push_back(i);
            c.log(cat("add listener ", i));
        } else if (what == 4) {
            Fakeit.clearEventHandlers();
            active.clear();
            c.log("clear listeners");
        } else if (what == 5) {
            custom = c.coin();
            ad.mode = c.range(0, 2);
            if (custom) Fakeit.setTestingFrameworkAdapter(ad); else Fakeit.resetTestingFrameworkAdapter();
            c.log(custom ? cat("adapter mode ", ad.mode) : std::string("default adapter"));
        } else {
            formatter = c.coin();
            if (formatter) Fakeit.setCustomEventFormatter(fm); else Fakeit.resetCustomEventFormatter();
            c.log(formatter ? "custom formatter" : "default formatter");
        }
    }
    c.nontrivialIf(failing >= 1 && passing >= 1);
}

PBT_MAIN("C14", oneCase)
