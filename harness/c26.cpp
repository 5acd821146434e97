// C26: meaningless requests are rejected by an exception and change nothing.
#include "sources.hpp"

static std::string rejection(std::function<void()> f) {
    try { f(); return "accepted"; }
    catch (const fakeit::UnexpectedMethodCallException &) { return "unexpected"; }
    catch (const fakeit::VerificationException &) { return "verification failure"; }
    catch (const std::invalid_argument &) { return "invalid_argument"; }
    catch (const std::runtime_error &) { return "runtime_error"; }
    catch (const std::exception &) { return "exception"; }
}

static void oneCase(pbt::Ctx &c) {
    Mocks w;
    Recorder rec;
    ListenTo listen(rec);
    std::vector<Call> hist;
    GenOpts o;
    o.mocks = c.range(1, 3); o.lo = 0; o.hi = 2; o.maxDepth = 1;
    int ops = 0, serial = 0, current = 0;
    When(Method(w.m0, a)).AlwaysReturn(current);
    auto callA = [&](int x) {
        c.eq(w.m0.get().a(x), current, "stubbed result of m0.a");
        hist.push_back(Call{0, 0, x, false, serial++});
    };
    // rest: once the state is the same, the naming of the mock in messages does not matter
    auto checkState = [&]() {
        std::vector<std::string> all, unv;
        for (auto &k : hist) { if (k.mock == 0 && k.method == 0) continue; all.push_back(callText("", k)); if (!k.verified) unv.push_back(callText("", k)); }
        std::vector<SourceM> q;
        SeqPool pool;
        for (int i = 0; i < o.mocks; i++) {
            for (int f = 0; f < 2; f++) {
                if (i == 0 && f == 0) continue;
                SourceM s; s.kind = 1; s.mock = i; s.step.mock = i; s.step.method = f; s.step.hasCond = false; s.src = pool.filter(w, s.step);
                q.push_back(s);
            }
        }
        rec.reset();
        std::string got = outcome([&]() -> std::string {
            if (q.size() == 1) VerifyNoOtherInvocations(*q[0].src);
            else if (q.size() == 3) VerifyNoOtherInvocations(*q[0].src, *q[1].src, *q[2].src);
            else VerifyNoOtherInvocations(*q[0].src, *q[1].src, *q[2].src, *q[3].src, *q[4].src);
            return "pass";
        });
        c.eq(got, unv.empty() ? "pass" : "no-more-failed", "no-other-invocations afterwards");
        c.eq(joined(rec.unverified), joined(unv), "unverified calls afterwards");
        if (!unv.empty()) c.eq(joined(rec.examined), joined(all), "recorded calls afterwards");
    };
    while (ops < 30 && c.more(12)) {
        pbt::Span sp(c);
        ops++;
        switch (c.weighted({8, 3, 2, 8})) {
            case 0: {
                int m = c.range(0, o.mocks - 1), f = c.range(0, 1), x = c.range(o.lo, o.hi);
                c.log(cat("call ", letterName[m][f], "(", x, ")"));
                if (m == 0 && f == 0) { callA(x); break; }
                w.call(m, f, x);
                hist.push_back(Call{m, f, x, false, serial++});
                break;
            }
            case 1: {   // a valid verification
                SeqPool pool;
                std::vector<PatternM> ps = genPatterns(c, pool, w, o, hist);
                std::vector<Call> seen;
                for (auto &k : hist) if (involved(ps, k.mock)) seen.push_back(k);
                MatchResult m = countMatches(ps, seen);
                Request r; r.form = 1; r.n = m.count;
                c.log(cat("Verify(", patternText(ps), ").Exactly(", r.n, ")"));
                c.eq(verifyPlain(ps, r, 2), "pass", "verdict");
                for (size_t i : m.used) for (auto &k : hist) if (k.serial == seen[i].serial) k.verified = true;
                break;
            }
            case 2:
                current = c.range(1, 1000);
                When(Method(w.m0, a)).AlwaysReturn(current);
                c.log(cat("m0.a returns ", current));
                break;
            case 3: {
                SeqPool pool;
                std::vector<PatternM> ps = genPatterns(c, pool, w, o, hist);
                const Sequence &s = *ps[0].seq;
                int bad = c.chance(1, 4) ? -c.range(1, 1000000) : -c.range(1, 3);
                int badRep = c.chance(1, 2) ? 0 : bad;
                unsigned long long badTime = c.chance(1, 2) ? 0ULL : (unsigned long long) c.range(2, 50);
                int form = c.range(0, 19);
                std::string want = "invalid_argument", got;
                Quantity q(bad);
                rec.reset();
                switch (form) {
                    case 0: got = rejection([&]() { Verify(s).Exactly(bad); }); break;
                    case 1: got = rejection([&]() { Verify(s).AtLeast(bad); }); break;
                    case 2: got = rejection([&]() { bool b = Verify(s).Exactly(bad); (void) b; }); break;
                    case 3: got = rejection([&]() { bool b = !Verify(s).AtLeast(bad); (void) b; }); break;
                    case 4: got = rejection([&]() { Verify(s).Exactly(q); }); break;
                    case 5: got = rejection([&]() { Verify(s).AtLeast(q); }); break;
                    case 6: got = rejection([&]() { Using(w.m0).Verify(s).Exactly(bad); }); break;
                    case 7: got = rejection([&]() { Unverified.Verify(s).AtLeast(bad); }); break;
                    case 8: got = rejection([&]() { Verify(s * badRep); }); break;
                    case 9: got = rejection([&]() { Verify(badRep * s).Any(); }); break;
                    case 10: got = rejection([&]() { Verify(s + s * badRep).Never(); }); break;
                    case 11: got = rejection([&]() { Verify(s, badRep * (s + s)).Once(); }); break;
                    case 12: got = rejection([&]() { When(Method(w.m0, a)).Return(fakeit::operator""_Time(badTime)(-5)); }); break;
                    case 13: got = rejection([&]() { When(Method(w.m0, a).Using(_)).Return(-6).Throw(fakeit::operator""_Time(badTime)(3)); }); break;
                    case 14: got = rejection([&]() { Verify(s).Exactly(fakeit::operator""_Time(badTime)); }); break;
                    case 15: want = "runtime_error"; got = rejection([&]() { Fake(Dtor(w.m0)); }); break;
                    case 16: want = "runtime_error"; got = rejection([&]() { When(Dtor(w.m0)).Return(); }); break;
                    case 17: want = "runtime_error"; got = rejection([&]() { Verify(Dtor(w.m0)); }); break;
                    case 18: want = "runtime_error"; got = rejection([&]() { Dtor(w.m0) = []() {}; }); break;
                    case 19: want = "invalid_argument"; got = rejection([&]() { VerifyNoOtherInvocations(w.m0); Verify(s).Exactly(bad); }); break;
                }
                if (form == 19) {   // the first statement is an ordinary one
                    bool unv = false;
                    for (auto &k : hist) if (k.mock == 0 && !k.verified) unv = true;
                    if (unv) { want = "verification failure"; }
                }
                c.log(cat("rejected form ", form, " number ", form >= 12 && form <= 14 ? (long) badTime : form >= 8 && form <= 11 ? badRep : bad, " pattern ", ps[0].text, " -> ", got));
                c.eq(got, want, "rejection");
                if (form != 19) c.eq(rec.sequences + rec.noMore + rec.unexpected, 0, "reported failures");
                c.label(cat("form ", form));
                if (!hist.empty()) c.nontrivial();
                callA(9);
                checkState();
                break;
            }
        }
    }
}

PBT_MAIN("C26", oneCase)
