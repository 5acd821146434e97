// Explicit invocation sources (mocks, method filters, unverified-only) chosen at run time, with their
// meaning, and a listener that records what a failing verification examined.
#pragma once
#include "seqworld.hpp"

struct SourceM {
    int kind;                    // 0 mock, 1 filter, 2 Unverified(parts)
    int mock;
    StepM step;
    std::vector<SourceM> parts;
    const ActualInvocationsSource *src;
    bool selects(const Call &c) const {
        if (kind == 0) return c.mock == mock;
        if (kind == 1) return step.matches(c);
        if (c.verified) return false;
        for (auto &p : parts) if (p.selects(c)) return true;
        return false;
    }
    std::string text() const {
        if (kind == 0) return cat("m", mock);
        if (kind == 1) return cat(letterName[step.mock][step.method], step.hasCond ? cat("(", step.cond.text(), ")") : std::string());
        std::string t = "Unverified(";
        for (size_t i = 0; i < parts.size(); i++) t += cat(i ? ", " : "", parts[i].text());
        return t + ")";
    }
};
inline SourceM genSource(pbt::Ctx &c, SeqPool &pool, Mocks &w, const GenOpts &o, const std::vector<Call> &hist, int depth) {
    SourceM s;
    s.kind = (int) c.weighted({4, 4, (uint32_t) (depth > 0 ? 2 : 0)});
    s.mock = 0;
    if (s.kind == 0) { s.mock = c.range(0, o.mocks - 1); s.src = &w.source(s.mock); return s; }
    if (s.kind == 1) { s.step = genStep(c, o, &hist); s.src = pool.filter(w, s.step); return s; }
    int n = c.range(1, 3);
    for (int i = 0; i < n; i++) s.parts.push_back(genSource(c, pool, w, o, hist, depth - 1));
    if (n == 1) s.src = pool.keepSource(Unverified(*s.parts[0].src));
    else if (n == 2) s.src = pool.keepSource(Unverified(*s.parts[0].src, *s.parts[1].src));
    else s.src = pool.keepSource(Unverified(*s.parts[0].src, *s.parts[1].src, *s.parts[2].src));
    return s;
}
inline std::vector<SourceM> genSources(pbt::Ctx &c, SeqPool &pool, Mocks &w, const GenOpts &o, const std::vector<Call> &hist, int max) {
    std::vector<SourceM> r;
    int n = c.range(1, max);
    for (int i = 0; i < n; i++) {
        if (i && c.chance(1, 5)) r.push_back(r[c.draw((uint32_t) r.size())]);   // the same source twice
        else r.push_back(genSource(c, pool, w, o, hist, 2));
    }
    return r;
}
inline std::string sourcesText(const std::vector<SourceM> &v) {
    std::string t;
    for (size_t i = 0; i < v.size(); i++) t += cat(i ? ", " : "", v[i].text());
    return t;
}
inline bool anySelects(const std::vector<SourceM> &v, const Call &c) { for (auto &s : v) if (s.selects(c)) return true; return false; }

struct Recorder : EventHandler {
    int sequences, noMore, unexpected;
    std::vector<std::string> examined, unverified;
    int expectedCount, actualCount;
    Recorder() { reset(); }
    void reset() { sequences = noMore = unexpected = 0; examined.clear(); unverified.clear(); expectedCount = actualCount = -77; }
    void handle(const SequenceVerificationEvent &e) override {
        sequences++;
        examined.clear();
        for (auto *i : e.actualSequence()) examined.push_back(i->format());
        expectedCount = e.expectedCount();
        actualCount = e.actualCount();
    }
    void handle(const NoMoreInvocationsVerificationEvent &e) override {
        noMore++;
        examined.clear(); unverified.clear();
        for (auto *i : e.allIvocations()) examined.push_back(i->format());
        for (auto *i : e.unverifedIvocations()) unverified.push_back(i->format());
    }
    void handle(const UnexpectedMethodCallEvent &) override { unexpected++; }
};
struct ListenTo {
    explicit ListenTo(EventHandler &h) { Fakeit.addEventHandler(h); }
    ~ListenTo() { Fakeit.clearEventHandlers(); }
};

// How a verification selects calls: 0 Verify(...), 1 Using(sources).Verify(...), 2 Unverified.Verify(...)
struct Scope {
    int mode;
    std::vector<SourceM> sources;
    bool selects(const std::vector<PatternM> &ps, const Call &c) const {
        if (mode == 1) return anySelects(sources, c);
        return involved(ps, c.mock) && (mode == 0 || !c.verified);
    }
    std::string text() const { return mode == 0 ? std::string("Verify(") : mode == 1 ? cat("Using(", sourcesText(sources), ").Verify(") : std::string("Unverified.Verify("); }
};
inline Scope genScope(pbt::Ctx &c, SeqPool &pool, Mocks &w, const GenOpts &o, const std::vector<Call> &hist) {
    Scope s;
    s.mode = (int) c.weighted({2, 4, 1});
    if (s.mode == 1) s.sources = genSources(c, pool, w, o, hist, 4);
    return s;
}
template<class U> std::string usingVerify(U &&u, const std::vector<PatternM> &ps, const Request &r, int delivery) {
    switch (ps.size()) {
        case 1: return deliver(u.Verify(*ps[0].seq), r, delivery);
        case 2: return deliver(u.Verify(*ps[0].seq, *ps[1].seq), r, delivery);
        case 3: return deliver(u.Verify(*ps[0].seq, *ps[1].seq, *ps[2].seq), r, delivery);
    }
    return deliver(u.Verify(*ps[0].seq, *ps[1].seq, *ps[2].seq, *ps[3].seq), r, delivery);
}
inline std::string verifyScoped(const Scope &s, const std::vector<PatternM> &ps, const Request &r, int delivery) {
    if (s.mode == 0) return verifyPlain(ps, r, delivery);
    std::string v = outcome([&]() -> std::string {
        if (s.mode == 2) {
            switch (ps.size()) {
                case 1: return deliver(Unverified.Verify(*ps[0].seq), r, delivery);
                case 2: return deliver(Unverified.Verify(*ps[0].seq, *ps[1].seq), r, delivery);
                case 3: return deliver(Unverified.Verify(*ps[0].seq, *ps[1].seq, *ps[2].seq), r, delivery);
            }
            return deliver(Unverified.Verify(*ps[0].seq, *ps[1].seq, *ps[2].seq, *ps[3].seq), r, delivery);
        }
        auto &q = s.sources;
        switch (q.size()) {
            case 1: return usingVerify(Using(*q[0].src), ps, r, delivery);
            case 2: return usingVerify(Using(*q[0].src, *q[1].src), ps, r, delivery);
            case 3: return usingVerify(Using(*q[0].src, *q[1].src, *q[2].src), ps, r, delivery);
        }
        return usingVerify(Using(*q[0].src, *q[1].src, *q[2].src, *q[3].src), ps, r, delivery);
    });
    return v == "verification-failed" ? "fail" : v;
}
template<class P> std::string deliverNoMore(P &&p, int delivery) {
    if (delivery == 0) return p ? "pass" : "fail";
    if (delivery == 1) return !p ? "fail" : "pass";
    if (delivery == 3) throw UserError(1);
    return "pass";
}
inline std::string verifyNoMore(const std::vector<SourceM> &q, int delivery) {
    std::string v = outcome([&]() -> std::string {
        switch (q.size()) {
            case 1: return deliverNoMore(VerifyNoOtherInvocations(*q[0].src), delivery);
            case 2: return deliverNoMore(VerifyNoOtherInvocations(*q[0].src, *q[1].src), delivery);
            case 3: return deliverNoMore(VerifyNoOtherInvocations(*q[0].src, *q[1].src, *q[2].src), delivery);
        }
        return deliverNoMore(VerifyNoOtherInvocations(*q[0].src, *q[1].src, *q[2].src, *q[3].src), delivery);
    });
    return v == "no-more-failed" ? "fail" : v;
}
inline std::string joined(const std::vector<std::string> &v) { std::string t; for (auto &s : v) t += s + " "; return t; }
