// C06: exactly the calls counted by passing verifications are verified.
#include "sources.hpp"

static void oneCase(pbt::Ctx &c) {
    Mocks w;
    Recorder rec;
    ListenTo listen(rec);
    std::vector<Call> hist;
    GenOpts o;
    o.mocks = c.range(1, 3); o.lo = 0; o.hi = c.range(0, 2); o.maxDepth = c.range(0, 2);
    int ops = 0, serial = 0, passing = 0;
    bool partial = false;
    auto forget = [&](int m) {
        std::vector<Call> rest;
        for (auto &k : hist) if (k.mock != m) rest.push_back(k);
        hist = rest;
    };
    auto checkState = [&]() {
        std::vector<std::string> unv;
        for (auto &k : hist) if (!k.verified) unv.push_back(callText("", k));
        std::vector<SourceM> all;
        for (int i = 0; i < o.mocks; i++) { SourceM s; s.kind = 0; s.mock = i; s.src = &w.source(i); all.push_back(s); }
        rec.reset();
        std::string got = verifyNoMore(all, 2);
        c.eq(got, unv.empty() ? "pass" : "fail", "no-other-invocations over all mocks");
        c.eq(joined(rec.unverified), joined(unv), "unverified calls");
        if (!unv.empty() && unv.size() < hist.size()) partial = true;
    };
    while (ops < 40 && c.more(16)) {
        pbt::Span sp(c);
        ops++;
        uint32_t what = c.weighted({10, 6, 4, 1, 1, 1});
        if (what == 0) {
            int m = c.range(0, o.mocks - 1), f = c.range(0, 1), x = c.range(o.lo, o.hi);
            for (int rep = c.chance(1, 300) ? c.range(10, 140) : 1; rep > 0; rep--) {
                w.call(m, f, x);
                hist.push_back(Call{m, f, x, false, serial++});
                c.log(cat("call ", letterName[m][f], "(", x, ")"));
            }
        } else if (what == 1) {
            SeqPool pool;
            std::vector<PatternM> ps = genPatterns(c, pool, w, o, hist);
            Scope s = genScope(c, pool, w, o, hist);
            std::vector<Call> seen;
            for (auto &k : hist) if (s.selects(ps, k)) seen.push_back(k);
            MatchResult m = countMatches(ps, seen);
            Request r = genRequest(c, m.count);
            int delivery = c.chance(1, 8) ? 3 : c.range(0, 2);
            std::string want = delivery == 3 ? "throw UserError 1" : r.accepts(m.count) ? "pass" : "fail";
            std::string got = verifyScoped(s, ps, r, delivery);
            c.log(cat(s.text(), patternText(ps), ")", r.text(), " delivery ", delivery, " -> ", got, " (occurrences ", m.count, ")"));
            c.eq(got, want, "verdict");
            if (want == "pass") {
                for (size_t i : m.used) for (auto &k : hist) if (k.serial == seen[i].serial) k.verified = true;
                if (m.count) passing++;
            }
            c.label(cat("verification ", delivery == 3 ? "cancelled" : want, m.count ? ", occurrences" : ", none"));
            checkState();
        } else if (what == 2) {
            SeqPool pool;
            std::vector<SourceM> q = genSources(c, pool, w, o, hist, 3);
            bool any = false;
            for (auto &k : hist) if (anySelects(q, k) && !k.verified) any = true;
            int delivery = c.chance(1, 8) ? 3 : c.range(0, 2);
            std::string got = verifyNoMore(q, delivery);
            c.log(cat("VerifyNoOtherInvocations(", sourcesText(q), ") delivery ", delivery, " -> ", got));
            c.eq(got, delivery == 3 ? "throw UserError 1" : any ? "fail" : "pass", "no-other-invocations verdict");
            c.label(cat("no other invocations: ", delivery == 3 ? "cancelled" : any ? "fail" : "pass"));
        } else if (what == 3) {
            int m = c.range(0, o.mocks - 1);
            w.clear(m); forget(m);
            c.log(cat("m", m, ".ClearInvocationHistory()"));
        } else if (what == 4) {
            int m = c.range(0, o.mocks - 1);
            w.reset(m); forget(m);
            c.log(cat("m", m, ".Reset() and stub again"));
        } else {
            int m = c.range(0, o.mocks - 1);
            w.stubMock(m);
            c.log(cat("stub m", m, " again"));
            checkState();
        }
    }
    checkState();
    c.nontrivialIf(passing >= 1 && partial);
}

PBT_MAIN("C06", oneCase)
