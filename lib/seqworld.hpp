// Several mocks with recorded calls, verification patterns built at run time, and the reference model
// of pattern matching. Used by the verification harnesses.
#pragma once
#include "cond.hpp"
#include <deque>

struct IA {
    virtual int a(int) = 0;
    virtual void b(int) = 0;
};
struct IB {
    virtual ~IB() {}
    virtual std::string c(int, int) = 0;
    virtual int a(int) = 0;
};

enum { NMocks = 4, NMethods = 2 };
static const char *const letterName[NMocks][NMethods] = {{"m0.a", "m0.b"}, {"m1.a", "m1.b"}, {"m2.c", "m2.a"}, {"m3.c", "m3.a"}};

struct Call { int mock, method, x; bool verified; int serial; };

struct StepM {   // one step of a pattern
    int mock, method;
    bool hasCond;
    Cond cond;
    bool matches(const Call &c) const { return c.mock == mock && c.method == method && (!hasCond || cond.accepts(c.x)); }
};

struct Mocks {
    Mock<IA> m0, m1;
    Mock<IB> m2, m3;
    Mocks() { stubAll(); }
    void stubAll() { for (int i = 0; i < NMocks; i++) stubMock(i); }
    void stubMock(int i) {
        switch (i) {
            case 0: Fake(Method(m0, a), Method(m0, b)); break;
            case 1: Fake(Method(m1, a), Method(m1, b)); break;
            case 2: Fake(Method(m2, c), Method(m2, a)); break;
            case 3: Fake(Method(m3, c), Method(m3, a)); break;
        }
    }
    void call(int mock, int method, int x) {
        switch (mock * 2 + method) {
            case 0: m0.get().a(x); break;
            case 1: m0.get().b(x); break;
            case 2: m1.get().a(x); break;
            case 3: m1.get().b(x); break;
            case 4: m2.get().c(x, x + 1); break;
            case 5: m2.get().a(x); break;
            case 6: m3.get().c(x, x + 1); break;
            case 7: m3.get().a(x); break;
        }
    }
    const ActualInvocationsSource &source(int i) const {
        switch (i) { case 0: return m0; case 1: return m1; case 2: return m2; }
        return m3;
    }
    void clear(int i) {
        switch (i) { case 0: m0.ClearInvocationHistory(); break; case 1: m1.ClearInvocationHistory(); break; case 2: m2.ClearInvocationHistory(); break; case 3: m3.ClearInvocationHistory(); break; }
    }
    void reset(int i) {
        switch (i) { case 0: m0.Reset(); break; case 1: m1.Reset(); break; case 2: m2.Reset(); break; case 3: m3.Reset(); break; }
        stubMock(i);
    }
};
// text a call has in FakeIt's messages
inline std::string callText(const char *prefix, const Call &c) {
    std::string s = cat(prefix, letterName[c.mock][c.method], "(", c.x);
    if (c.mock >= 2 && c.method == 0) s += cat(", ", c.x + 1);
    return s + ")";
}

// Keeps run-time built sequences alive.
class SeqPool {
    struct Base { virtual ~Base() noexcept(false) {} };
    template<class T> struct Holder : Base { T value; explicit Holder(const T &v) : value(v) {} };
    std::vector<std::unique_ptr<Base>> _keep;
    template<class T> Holder<T> *hold(const T &v) { auto *h = new Holder<T>(v); _keep.emplace_back(h); return h; }
public:
    template<class T> const Sequence *keep(const T &v) { return &hold(v)->value; }
    template<class T> const ActualInvocationsSource *keepSource(const T &v) { return &hold(v)->value; }
    template<class Ctx1> const Sequence *leaf1(Ctx1 &&ctx, const StepM &s) {
        if (!s.hasCond) return keep(ctx);
        const Sequence *r = nullptr;
        withCondSmall(s.cond, [&](auto &&m) { r = this->keep(ctx.Using(m)); });
        return r;
    }
    template<class Ctx1> const Sequence *leaf2(Ctx1 &&ctx, const StepM &s) {
        if (!s.hasCond) return keep(ctx);
        const Sequence *r = nullptr;
        withCondSmall(s.cond, [&](auto &&m) { r = this->keep(ctx.Using(m, _)); });
        return r;
    }
    template<class Ctx1> const ActualInvocationsSource *src1(Ctx1 &&ctx, const StepM &s) {
        if (!s.hasCond) return keepSource(ctx);
        const ActualInvocationsSource *r = nullptr;
        withCondSmall(s.cond, [&](auto &&m) { r = this->keepSource(ctx.Using(m)); });
        return r;
    }
    template<class Ctx1> const ActualInvocationsSource *src2(Ctx1 &&ctx, const StepM &s) {
        if (!s.hasCond) return keepSource(ctx);
        const ActualInvocationsSource *r = nullptr;
        withCondSmall(s.cond, [&](auto &&m) { r = this->keepSource(ctx.Using(m, _)); });
        return r;
    }
    const Sequence *leaf(Mocks &w, const StepM &s) {
        Mock<IA> &m0 = w.m0; Mock<IA> &m1 = w.m1; Mock<IB> &m2 = w.m2; Mock<IB> &m3 = w.m3;
        switch (s.mock * 2 + s.method) {
            case 0: return leaf1(Method(m0, a), s);
            case 1: return leaf1(Method(m0, b), s);
            case 2: return leaf1(Method(m1, a), s);
            case 3: return leaf1(Method(m1, b), s);
            case 4: return leaf2(Method(m2, c), s);
            case 5: return leaf1(Method(m2, a), s);
            case 6: return leaf2(Method(m3, c), s);
        }
        return leaf1(Method(m3, a), s);
    }
    const ActualInvocationsSource *filter(Mocks &w, const StepM &s) {
        Mock<IA> &m0 = w.m0; Mock<IA> &m1 = w.m1; Mock<IB> &m2 = w.m2; Mock<IB> &m3 = w.m3;
        switch (s.mock * 2 + s.method) {
            case 0: return src1(Method(m0, a), s);
            case 1: return src1(Method(m0, b), s);
            case 2: return src1(Method(m1, a), s);
            case 3: return src1(Method(m1, b), s);
            case 4: return src2(Method(m2, c), s);
            case 5: return src1(Method(m2, a), s);
            case 6: return src2(Method(m3, c), s);
        }
        return src1(Method(m3, a), s);
    }
};

// A joined/repeated pattern: text, flattened steps and the FakeIt sequence.
struct PatternM {
    std::vector<StepM> flat;
    std::string text;        // readable
    std::string rendered;    // as FakeIt's messages show it
    const Sequence *seq;
    bool composite;          // a join or repetition
};

struct GenOpts { int mocks; int lo, hi; int maxDepth; };

inline StepM genStep(pbt::Ctx &c, const GenOpts &o, const std::vector<Call> *hist) {
    StepM s;
    if (hist && !hist->empty() && c.chance(1, 2)) {
        const Call &k = (*hist)[c.draw((uint32_t) hist->size())];
        s.mock = k.mock; s.method = k.method;
    } else {
        s.mock = c.range(0, o.mocks - 1);
        s.method = c.range(0, 1);
    }
    s.hasCond = c.chance(1, 2);
    s.cond.kind = 0; s.cond.v = 0;
    if (s.hasCond) s.cond = normSmall(genCond(c, o.lo, o.hi));
    return s;
}
inline PatternM leafPattern(SeqPool &pool, Mocks &w, const StepM &s) {
    PatternM p;
    p.flat.push_back(s);
    p.text = cat(letterName[s.mock][s.method], s.hasCond ? cat("(", s.cond.text(), ")") : std::string());
    std::string args = s.hasCond ? (s.mock >= 2 && s.method == 0 ? cat("(", s.cond.rendered(), ", Any)") : cat("(", s.cond.rendered(), ")")) : std::string("( Any arguments )");
    p.rendered = cat(letterName[s.mock][s.method], args);
    p.seq = pool.leaf(w, s);
    p.composite = false;
    return p;
}
inline PatternM joinPattern(SeqPool &pool, const PatternM &a, const PatternM &b) {
    PatternM p;
    p.flat = a.flat; p.flat.insert(p.flat.end(), b.flat.begin(), b.flat.end());
    p.text = cat("(", a.text, " + ", b.text, ")");
    p.rendered = cat(a.rendered, " + ", b.rendered);
    p.seq = pool.keep(*a.seq + *b.seq);
    p.composite = true;
    return p;
}
inline PatternM repeatPattern(SeqPool &pool, const PatternM &a, int n, bool left) {
    PatternM p;
    for (int i = 0; i < n; i++) p.flat.insert(p.flat.end(), a.flat.begin(), a.flat.end());
    p.text = left ? cat(n, "*(", a.text, ")") : cat("(", a.text, ")*", n);
    p.rendered = a.composite ? cat("(", a.rendered, ") * ", n) : cat(a.rendered, " * ", n);
    p.seq = left ? pool.keep(n * *a.seq) : pool.keep(*a.seq * n);
    p.composite = true;
    return p;
}
inline PatternM genPattern(pbt::Ctx &c, SeqPool &pool, Mocks &w, const GenOpts &o, const std::vector<Call> *hist, int depth) {
    int shape = depth <= 0 ? 0 : (int) c.weighted({5, 3, 2});
    if (shape == 0) return leafPattern(pool, w, genStep(c, o, hist));
    if (shape == 1) {
        PatternM a = genPattern(c, pool, w, o, hist, depth - 1);
        PatternM b = genPattern(c, pool, w, o, hist, depth - 1);
        return joinPattern(pool, a, b);
    }
    PatternM a = genPattern(c, pool, w, o, hist, depth - 1);
    return repeatPattern(pool, a, c.chance(1, 20) ? c.range(4, 20) : c.range(1, 3), c.coin());
}
// steps copied from a stretch of the history, with conditions that accept it
inline PatternM patternFromHistory(pbt::Ctx &c, SeqPool &pool, Mocks &w, const std::vector<Call> &seen, size_t from, int len) {
    PatternM p;
    for (int i = 0; i < len; i++) {
        const Call &k = seen[from + (size_t) i];
        StepM s; s.mock = k.mock; s.method = k.method; s.hasCond = c.coin(); s.cond.kind = 0; s.cond.v = k.x;
        PatternM l = leafPattern(pool, w, s);
        if (i == 0) p = l; else p = joinPattern(pool, p, l);
    }
    return p;
}

// reference matching: left to right, adjacent inside a pattern, gaps between patterns, no overlap
struct MatchResult { int count; std::vector<size_t> used; };
inline MatchResult countMatches(const std::vector<PatternM> &pattern, const std::vector<Call> &seen) {
    MatchResult r; r.count = 0;
    size_t pos = 0;
    for (;;) {
        std::vector<size_t> used;
        size_t p = pos;
        bool complete = true;
        for (auto &part : pattern) {
            bool found = false;
            for (size_t i = p; i + part.flat.size() <= seen.size(); i++) {
                bool ok = true;
                for (size_t j = 0; j < part.flat.size(); j++) if (!part.flat[j].matches(seen[i + j])) { ok = false; break; }
                if (ok) {
                    for (size_t j = 0; j < part.flat.size(); j++) used.push_back(i + j);
                    p = i + part.flat.size();
                    found = true;
                    break;
                }
            }
            if (!found) { complete = false; break; }
        }
        if (!complete) return r;
        r.count++;
        r.used.insert(r.used.end(), used.begin(), used.end());
        pos = p;
    }
}

struct Request {
    int form, n;
    bool accepts(int count) const {
        switch (form) {
            case 0: case 6: return count >= 1;
            case 1: case 9: return count == n;
            case 2: return count == 0;
            case 3: case 10: return count == 1;
            case 4: return count == 2;
            case 5: case 11: return count >= n;
        }
        return true;
    }
    std::string text() const {
        static const char *t[] = {"", ".Exactly(n)", ".Never()", ".Once()", ".Twice()", ".AtLeast(n)", ".AtLeastOnce()", ".Any()", ".Any()", ".Exactly(n_Times)", ".Exactly(Once)", ".AtLeast(n_Times)"};
        return (form == 1 || form == 5 || form == 9 || form == 11) ? cat(t[form], " n=", n) : std::string(t[form]);
    }
    bool atLeast() const { return form == 0 || form == 5 || form == 6 || form == 11; }
    int number() const { switch (form) { case 0: case 6: case 3: case 10: return 1; case 2: return 0; case 4: return 2; } return n; }
};
inline Request genRequest(pbt::Ctx &c, int around) {
    Request r;
    r.form = c.range(0, 11);
    r.n = 0;
    if (r.form == 1 || r.form == 5 || r.form == 9 || r.form == 11) {
        r.n = around + (c.chance(1, 8) ? c.pick(std::vector<int>{2, -2, 3, 10, 128, 256, -256, 65536, 1 << 24}) : c.range(-1, 1));
        if (r.n < 0) r.n = 0;
    }
    return r;
}
inline QuantifierFunctor timesOf(int n) { return fakeit::operator""_Times((unsigned long long) n); }

// delivery: 0 bool, 1 operator!, 2 statement (throws at the end of the caller's full expression),
// 3 statement cancelled by an exception
template<class P> std::string deliver(P &&p, const Request &r, int delivery) {
#define VERIF_DELIVER(expr) { if (delivery == 0) return (expr) ? "pass" : "fail"; if (delivery == 1) return !(expr) ? "fail" : "pass"; (expr); if (delivery == 3) throw UserError(1); return "pass"; }
    switch (r.form) {
        case 0: if (delivery == 0) return p ? "pass" : "fail"; if (delivery == 1) return !p ? "fail" : "pass"; if (delivery == 3) throw UserError(1); return "pass";
        case 1: VERIF_DELIVER(p.Exactly(r.n))
        case 2: VERIF_DELIVER(p.Never())
        case 3: VERIF_DELIVER(p.Once())
        case 4: VERIF_DELIVER(p.Twice())
        case 5: VERIF_DELIVER(p.AtLeast(r.n))
        case 6: VERIF_DELIVER(p.AtLeastOnce())
        case 9: VERIF_DELIVER(p.Exactly(timesOf(r.n)))
        case 10: VERIF_DELIVER(p.Exactly(fakeit::Once))
        case 11: VERIF_DELIVER(p.AtLeast(timesOf(r.n)))
    }
    VERIF_DELIVER(p.Any())
#undef VERIF_DELIVER
}

// plain Verify(...) over 1..4 comma separated patterns
inline std::string verifyPlain(const std::vector<PatternM> &ps, const Request &r, int delivery) {
    std::string v = outcome([&]() -> std::string {
        std::string res;
        switch (ps.size()) {
            case 1: res = deliver(Verify(*ps[0].seq), r, delivery); break;
            case 2: res = deliver(Verify(*ps[0].seq, *ps[1].seq), r, delivery); break;
            case 3: res = deliver(Verify(*ps[0].seq, *ps[1].seq, *ps[2].seq), r, delivery); break;
            default: res = deliver(Verify(*ps[0].seq, *ps[1].seq, *ps[2].seq, *ps[3].seq), r, delivery); break;
        }
        return res;
    });
    return v == "verification-failed" ? "fail" : v;
}
inline bool involved(const std::vector<PatternM> &ps, int mock) {
    for (auto &p : ps) for (auto &s : p.flat) if (s.mock == mock) return true;
    return false;
}
inline std::string patternText(const std::vector<PatternM> &ps) {
    std::string t;
    for (size_t i = 0; i < ps.size(); i++) t += cat(i ? ", " : "", ps[i].text);
    return t;
}
// 1..4 patterns; half of them derived from what was called
inline std::vector<PatternM> genPatterns(pbt::Ctx &c, SeqPool &pool, Mocks &w, const GenOpts &o, const std::vector<Call> &hist) {
    std::vector<PatternM> ps;
    int n = 1 + (int) c.weighted({6, 3, 1, 1});
    size_t from = 0;
    bool derived = !hist.empty() && c.chance(2, 5);
    for (int i = 0; i < n; i++) {
        if (derived && from < hist.size()) {
            int maxLen = (int) (hist.size() - from);
            size_t start = from + c.draw((uint32_t) std::min(maxLen, 3));
            int len = c.range(1, std::min(3, (int) (hist.size() - start)));
            ps.push_back(patternFromHistory(c, pool, w, hist, start, len));
            if (c.chance(1, 6)) ps.back() = repeatPattern(pool, ps.back(), c.range(1, 2), c.coin());
            from = start + (size_t) len;
        } else ps.push_back(genPattern(c, pool, w, o, &hist, o.maxDepth));
    }
    return ps;
}
