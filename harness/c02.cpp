// C02: the newest stubbing that accepts the arguments answers the call, and only it loses an action.
#include "cond.hpp"
#include <deque>

struct Other { virtual ~Other() {} virtual int z(int) = 0; };
struct I : Other {
    virtual int f(int, int) = 0;
    virtual int g(int) = 0;
    virtual void h(int, std::string) = 0;
};

struct Stub {
    int method;         // 0 f(a,b) 1 g(a) 2 h(a,text) 3 z(a)
    int form;           // 0 none 1 matcher list 2 literal call form 3 predicate
    Cond a, b;
    int pm, pr, pk;     // predicate: (x + pk*y) % pm == pr
    std::deque<int> ids;
    bool forever;
    int foreverId;
    bool accepts(int x, int y) const {
        switch (form) {
            case 0: return true;
            case 1: case 2: return a.accepts(x) && (method == 1 || method == 3 || b.accepts(y));
        }
        return (x + pk * y) % pm == pr;
    }
};

static std::vector<int> voidTrace;
static std::string strOf(int y) { return cat("s", y); }

template<class R, class... A> void act(MethodStubbingProgress<R, A...> &p, const Stub &s, int style) {
    MethodStubbingProgress<R, A...> *q = &p;
    for (int id : s.ids) {
        if (style == 1) q = &q->Do([id](typename fakeit::test_arg<A>::type...) { return id; });
        else q = &q->Return(id);
    }
    if (s.forever) q->AlwaysReturn(s.foreverId);
}
template<class... A> void act(MethodStubbingProgress<void, A...> &p, const Stub &s, int) {
    MethodStubbingProgress<void, A...> *q = &p;
    for (int id : s.ids) q = &q->Do([id](typename fakeit::test_arg<A>::type...) { voidTrace.push_back(id); });
    int id = s.foreverId;
    if (s.forever) q->AlwaysDo([id](typename fakeit::test_arg<A>::type...) { voidTrace.push_back(id); });
}
template<class P> P &lv(P &&p) { return p; }

static void oneCase(pbt::Ctx &c) {
    Mock<I> mock;
    I &obj = mock.get();
    std::vector<Stub> stubs[4];
    int next = 1, overlaps = 0, calls = 0;
    int lo = 0, hi = 4;
    int nm = c.range(1, 2);
    int ms[2] = {(int) c.weighted({4, 3, 2, 2}), 0};
    if (nm == 2) ms[1] = (int) c.weighted({4, 3, 2, 2});

    auto keptF = Method(mock, f);   // contexts used by several statements, with changing conditions
    auto keptG = Method(mock, g);

    auto stub = [&]() {
        Stub s;
        s.method = ms[c.draw((uint32_t) nm)];
        s.form = (int) c.weighted({2, 5, 2, 3});
        s.a = genCond(c, lo, hi);
        s.b = normSmall(genCond(c, lo, hi));
        s.pm = s.form == 3 ? c.range(1, 3) : 1; s.pr = s.form == 3 ? c.range(0, s.pm - 1) : 0; s.pk = s.form == 3 ? c.range(0, 2) : 0;
        if (s.form == 2) { s.a.kind = 0; s.b.kind = 0; }
        if (s.method == 2) { s.b.kind = (s.b.kind == 1) ? 1 : 0; }
        int n = c.range(0, 3);
        for (int i = 0; i < n; i++) s.ids.push_back(next++);
        s.forever = c.chance(1, 3);
        s.foreverId = s.forever ? next++ : 0;
        int style = c.range(0, 2);
        int written = c.range(0, 2);   // 0 When, 1 stored context, 2 assignment (only for-ever stubs)
        bool kept = s.method <= 1 && written != 1 && c.chance(1, 4);
        std::string t = cat(kept ? "stub kept " : "stub ", "fghz"[s.method]);
        if (s.form == 0) t += "(*)";
        else if (s.form == 3) t += cat("[(x+", s.pk, "y)%", s.pm, "==", s.pr, "]");
        else t += cat(s.form == 1 ? ".Using(" : "(", s.a.text(), (s.method == 0 || s.method == 2) ? cat(", ", s.b.text()) : std::string(), ")");
        bool assign = written == 2 && s.forever && s.ids.empty();
        t += assign ? " = " : " -> ";
        for (int id : s.ids) t += cat(id, " ");
        if (s.forever) t += cat("always ", s.foreverId);
        c.log(t);
        int pm = s.pm, pr = s.pr, pk = s.pk;
        auto pred2 = [pm, pr, pk](int &x, int &y) { return (x + pk * y) % pm == pr; };
        auto pred1 = [pm, pr](int &x) { return x % pm == pr; };
        auto predh = [pm, pr](int &x, std::string &) { return x % pm == pr; };
        if (s.form == 3 && s.method != 0) s.pk = 0;
        std::vector<Stub> &list = stubs[s.method];
        auto when = [&](auto &&ctx) {
            if (written == 1) {
                auto stored = ctx;
                act(lv(When(stored)), s, style);
            } else act(lv(When(ctx)), s, style);
        };
        auto finishValue = [&](auto &&ctx) {
            if (assign) ctx = s.foreverId; else when(ctx);
        };
        auto finish = [&](auto &&ctx) {
            int id = s.foreverId;
            if (assign) ctx = [id](int &, std::string &) { voidTrace.push_back(id); }; else when(ctx);
        };
        if (kept) {
            if (s.method == 0) {
                if (s.form == 0) finishValue(keptF.Using(_, Any()));
                else if (s.form == 1) withCond(s.a, [&](auto &&m1) { withCondSmall(s.b, [&](auto &&m2) { finishValue(keptF.Using(m1, m2)); }); });
                else if (s.form == 2) finishValue(keptF(s.a.v, s.b.v));
                else finishValue(keptF.Matching(pred2));
            } else {
                if (s.form == 0) finishValue(keptG.Using(_));
                else if (s.form == 1) withCond(s.a, [&](auto &&m1) { finishValue(keptG.Using(m1)); });
                else if (s.form == 2) finishValue(keptG(s.a.v));
                else finishValue(keptG.Matching(pred1));
            }
        } else switch (s.method) {
            case 0:
                if (s.form == 0) finishValue(Method(mock, f));
                else if (s.form == 1) withCond(s.a, [&](auto &&m1) { withCondSmall(s.b, [&](auto &&m2) { finishValue(Method(mock, f).Using(m1, m2)); }); });
                else if (s.form == 2) finishValue(Method(mock, f)(s.a.v, s.b.v));
                else if (style == 0) finishValue(Method(mock, f)(pred2));
                else finishValue(Method(mock, f).Matching(pred2));
                break;
            case 1:
                if (s.form == 0) finishValue(Method(mock, g));
                else if (s.form == 1) withCond(s.a, [&](auto &&m1) { finishValue(Method(mock, g).Using(m1)); });
                else if (s.form == 2) finishValue(Method(mock, g)(s.a.v));
                else finishValue(Method(mock, g).Matching(pred1));
                break;
            case 2:
                if (s.form == 0) finish(Method(mock, h));
                else if (s.form == 1) withCond(s.a, [&](auto &&m1) {
                    if (s.b.kind == 1) finish(Method(mock, h).Using(m1, _));
                    else finish(Method(mock, h).Using(m1, strOf(s.b.v))); });
                else if (s.form == 2) finish(Method(mock, h)(s.a.v, strOf(s.b.v)));
                else finish(Method(mock, h).Matching(predh));
                break;
            case 3:
                if (s.form == 0) finishValue(Method(mock, z));
                else if (s.form == 1) withCond(s.a, [&](auto &&m1) { finishValue(Method(mock, z).Using(m1)); });
                else if (s.form == 2) finishValue(Method(mock, z)(s.a.v));
                else finishValue(Method(mock, z).Matching(pred1));
                break;
        }
        list.push_back(s);
    };

    auto call = [&]() {
        // prefer methods that have stubs; unknown arguments too
        int m = ms[c.draw((uint32_t) nm)];
        int x = c.range(lo - 1, hi + 1), y = c.range(lo - 1, hi + 1);
        if (x < 0) x = 9;
        if (y < 0) y = 9;
        voidTrace.clear();
        std::string got = outcome([&]() -> std::string {
            switch (m) {
                case 0: return cat("id ", obj.f(x, y));
                case 1: return cat("id ", obj.g(x));
                case 2: obj.h(x, strOf(y)); return voidTrace.size() == 1 ? cat("id ", voidTrace[0]) : cat("effects ", voidTrace.size());
            }
            Other &o = obj;
            return cat("id ", o.z(x));
        });
        std::string want = "unexpected";
        int accepting = 0;
        Stub *chosen = nullptr;
        for (auto i = stubs[m].rbegin(); i != stubs[m].rend(); ++i)
            if (i->accepts(x, y)) { accepting++; if (!chosen) chosen = &*i; }
        if (accepting >= 2) overlaps++;
        if (chosen) {
            if (!chosen->ids.empty()) { want = cat("id ", chosen->ids.front()); chosen->ids.pop_front(); }
            else if (chosen->forever) want = cat("id ", chosen->foreverId);
        }
        calls++;
        c.label(accepting == 0 ? "no stubbing accepts" : accepting == 1 ? "one accepts" : "several accept");
        c.log(cat("call ", "fghz"[m], "(", x, ",", y, ") -> ", got));
        c.eq(got, want, cat("call of ", "fghz"[m], "(", x, ",", y, ")"));
    };

    int ops = 0;
    { pbt::Span sp(c); stub(); }
    while (ops < 60 && c.more(14)) {
        pbt::Span sp(c);
        ops++;
        if (c.weighted({3, 2}) == 0) call(); else stub();
    }
    c.nontrivialIf(overlaps > 0);
}

PBT_MAIN("C02", oneCase)
