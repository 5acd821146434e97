// C01: actions of a stubbing run in written order, each its stated number of times.
#include "fk.hpp"
#include <deque>

struct Big { long a; char text[40]; double d; };
struct I {
    virtual int f(int) = 0;
    virtual void v(int) = 0;
    virtual std::string s(int) = 0;
    virtual int &r(int) = 0;
    virtual std::unique_ptr<int> u(int) = 0;
    virtual Big b(int) = 0;
    virtual double n() = 0;
    virtual int o(int &, int *) = 0;
    virtual void w(int &) = 0;
};

static std::vector<std::string> effects;   // side effects of void callables
static int refPool[64];

static Big mkBig(int v) { Big b; memset(&b, 0, sizeof b); b.a = v; snprintf(b.text, sizeof b.text, "t%d", v); b.d = v * 0.5; return b; }
static std::string show(int v) { return cat("ret ", v); }
static std::string show(double v) { return cat("ret ", v); }
static std::string show(const std::string &v) { return cat("ret ", v); }
static std::string show(const std::unique_ptr<int> &v) { return v ? cat("ret ", *v) : std::string("ret null"); }
static std::string show(const Big &b) { return cat("ret big ", b.a, " ", b.text, " ", b.d); }

// One elementary action: kind + payload; n uses, n < 0 = for ever.
struct Act { char kind; int v; int n; };
// kinds: R return value, D default value, i/s/e throw int/string/UserError, F callable, S return-and-set

template<class R> struct Make;
template<> struct Make<int> { static int of(int v) { return v; } };
template<> struct Make<double> { static double of(int v) { return v * 0.25; } };
template<> struct Make<std::string> { static std::string of(int v) { return cat("str-", v, "-with-some-length-to-leave-small-buffer"); } };
template<> struct Make<Big> { static Big of(int v) { return mkBig(v); } };

static int callableValue(int v, int arg) { return v * 100 + arg; }

// ---- written forms --------------------------------------------------------------------------
struct Step { int form; std::vector<Act> acts; };

template<class R> struct Caller {   // callable with its own payload, usable for any argument list
    int v;
    template<class... A> R operator()(A...) const { effects.push_back(cat("call ", v)); return Make<R>::of(callableValue(v, 0)); }
};
template<> struct Caller<void> {
    int v;
    template<class... A> void operator()(A...) const { effects.push_back(cat("call ", v)); }
};
template<> struct Caller<int &> {
    int v;
    template<class... A> int &operator()(A...) const { effects.push_back(cat("call ", v)); return refPool[v % 64]; }
};
template<> struct Caller<std::unique_ptr<int>> {
    int v;
    template<class... A> std::unique_ptr<int> operator()(A...) const { effects.push_back(cat("call ", v)); return std::unique_ptr<int>(new int(callableValue(v, 0))); }
};

static QuantifierFunctor times(int n) { return fakeit::operator""_Times((unsigned long long) n); }

enum Form {
    Ret1, RetQ, RetList2, RetList3, RetMix, RetDefault,
    Thr1, ThrS, ThrE, ThrQ, ThrQE, ThrList2, ThrList3, ThrMix,
    Do1, DoQ, DoList2, DoList3, DoMix, Set1,
    // terminal
    AlwaysRet, AlwaysRetDefault, AlwaysThr, AlwaysThrE, AlwaysDoF, AlwaysSet, NForms
};

// forms shared by every method kind
template<class R, class P> P &commonStep(P &p, const Step &s, bool &handled) {
    const std::vector<Act> &a = s.acts;
    handled = true;
    typedef Caller<R> C;
    switch (s.form) {
        case Thr1: return p.Throw(a[0].v);
        case ThrS: return p.Throw(cat("s", a[0].v));
        case ThrE: return p.Throw(UserError(a[0].v));
        case ThrQ: return p.Throw(times(a[0].n)(a[0].v));
        case ThrQE: return p.Throw(times(a[0].n)(UserError(a[0].v)));
        case ThrList2: return p.Throw(a[0].v, cat("s", a[1].v));
        case ThrList3: return p.Throw(UserError(a[0].v), a[1].v, UserError(a[2].v));
        case ThrMix: return p.Throw(a[0].v, times(a[1].n)(UserError(a[1].v)), cat("s", a[2].v));
        case Do1: return p.Do(C{a[0].v});
        case DoQ: return p.Do(times(a[0].n)(C{a[0].v}));
        case DoList2: return p.Do(C{a[0].v}, C{a[1].v});
        case DoList3: return p.Do(C{a[0].v}, C{a[1].v}, C{a[2].v});
        case DoMix: return p.Do(times(a[0].n)(C{a[0].v}), C{a[1].v}, times(a[2].n)(C{a[2].v}));
        case AlwaysThr: p.AlwaysThrow(a[0].v); return p;
        case AlwaysThrE: p.AlwaysThrow(UserError(a[0].v)); return p;
        case AlwaysDoF: p.AlwaysDo(C{a[0].v}); return p;
    }
    handled = false;
    return p;
}

// value results
template<class R> struct Steps {
    template<class P> static P &apply(P &p, const Step &s) {
        bool h; P &q = commonStep<R>(p, s, h); if (h) return q;
        const std::vector<Act> &a = s.acts;
        switch (s.form) {
            case Ret1: return p.Return(Make<R>::of(a[0].v));
            case RetQ: return p.Return(times(a[0].n)(Make<R>::of(a[0].v)));
            case RetList2: return p.Return(Make<R>::of(a[0].v), Make<R>::of(a[1].v));
            case RetList3: return p.Return(Make<R>::of(a[0].v), Make<R>::of(a[1].v), Make<R>::of(a[2].v));
            case RetMix: return p.Return(Make<R>::of(a[0].v), times(a[1].n)(Make<R>::of(a[1].v)), Make<R>::of(a[2].v), times(a[3].n)(Make<R>::of(a[3].v)));
            case RetDefault: return p.Return();
            case AlwaysRet: p.AlwaysReturn(Make<R>::of(a[0].v)); return p;
            case AlwaysRetDefault: p.AlwaysReturn(); return p;
        }
        return p;
    }
};
template<> struct Steps<void> {
    template<class P> static P &apply(P &p, const Step &s) {
        bool h; P &q = commonStep<void>(p, s, h); if (h) return q;
        switch (s.form) {
            case RetDefault: return p.Return();
            case RetQ: return p.Return(times(s.acts[0].n));
            case AlwaysRetDefault: p.AlwaysReturn(); return p;
        }
        return p;
    }
};
template<> struct Steps<int &> {
    template<class P> static P &apply(P &p, const Step &s) {
        bool h; P &q = commonStep<int &>(p, s, h); if (h) return q;
        switch (s.form) {
            case Ret1: return p.Return(refPool[s.acts[0].v % 64]);
            case AlwaysRet: p.AlwaysReturn(refPool[s.acts[0].v % 64]); return p;
        }
        return p;
    }
};
template<> struct Steps<std::unique_ptr<int>> {
    template<class P> static P &apply(P &p, const Step &s) {
        bool h; P &q = commonStep<std::unique_ptr<int>>(p, s, h); if (h) return q;
        switch (s.form) {
            case Ret1: return p.Return(std::unique_ptr<int>(new int(s.acts[0].v)));
        }
        return p;
    }
};
struct StepsOut {   // int o(int&, int*)
    template<class P> static P &apply(P &p, const Step &s) {
        switch (s.form) {
            case Set1: return p.ReturnAndSet(int(s.acts[0].v), s.acts[0].v + 1, s.acts[0].v + 2);
            case AlwaysSet: p.AlwaysReturnAndSet(int(s.acts[0].v), s.acts[0].v + 1, s.acts[0].v + 2); return p;
        }
        return Steps<int>::apply(p, s);
    }
};
struct StepsOutVoid {   // void w(int&)
    template<class P> static P &apply(P &p, const Step &s) {
        switch (s.form) {
            case Set1: return p.ReturnAndSet(s.acts[0].v + 1);
            case AlwaysSet: p.AlwaysReturnAndSet(s.acts[0].v + 1); return p;
        }
        return Steps<void>::apply(p, s);
    }
};

template<class S, class R, class... A> void runScript(MethodStubbingProgress<R, A...> &p0, const std::vector<Step> &steps) {
    MethodStubbingProgress<R, A...> *p = &p0;
    for (const Step &s : steps) p = &S::apply(*p, s);
}
template<class P> P &lv(P &&p) { return p; }

enum Kind { KInt, KVoid, KStr, KRef, KUptr, KBig, KDouble, KOut, KOutVoid, NKinds };
static const char *kindName[] = {"f", "v", "s", "r", "u", "b", "n", "o", "w"};

static std::vector<int> formsOf(int k, bool terminal) {
    std::vector<int> r;
    if (!terminal) {
        r = {Do1, Thr1, ThrS, ThrE, ThrQ, ThrQE, ThrList2, ThrList3, ThrMix, DoQ, DoList2, DoList3, DoMix};
        if (k == KInt || k == KStr || k == KBig || k == KDouble || k == KOut)
            for (int f : {Ret1, RetQ, RetList2, RetList3, RetMix, RetDefault, Ret1, RetMix}) r.push_back(f);
        if (k == KVoid || k == KOutVoid) for (int f : {RetDefault, RetQ, RetDefault, RetQ}) r.push_back(f);
        if (k == KRef || k == KUptr) for (int f : {Ret1, Ret1, Ret1}) r.push_back(f);
        if (k == KOut || k == KOutVoid) for (int f : {Set1, Set1, Set1}) r.push_back(f);
    } else {
        r = {AlwaysDoF, AlwaysThr, AlwaysThrE};
        if (k == KInt || k == KStr || k == KBig || k == KDouble || k == KOut) for (int f : {AlwaysRet, AlwaysRetDefault}) r.push_back(f);
        if (k == KVoid || k == KOutVoid) r.push_back(AlwaysRetDefault);
        if (k == KRef) r.push_back(AlwaysRet);
        if (k == KOut || k == KOutVoid) r.push_back(AlwaysSet);
    }
    return r;
}

static const char *formName[] = {"Return(x)", "Return(n_Times(x))", "Return(x,y)", "Return(x,y,z)", "Return(x,n_Times(y),z,m_Times(w))", "Return()",
    "Throw(int)", "Throw(string)", "Throw(obj)", "Throw(n_Times(int))", "Throw(n_Times(obj))", "Throw(int,string)", "Throw(obj,int,obj)", "Throw(int,n_Times(obj),string)",
    "Do(f)", "Do(n_Times(f))", "Do(f,g)", "Do(f,g,h)", "Do(n_Times(f),g,m_Times(h))", "ReturnAndSet",
    "AlwaysReturn(x)", "AlwaysReturn()", "AlwaysThrow(int)", "AlwaysThrow(obj)", "AlwaysDo(f)", "AlwaysReturnAndSet"};

static Step genStep(pbt::Ctx &c, int kind, int form, int &next) {
    Step s; s.form = form;
    auto cnt = [&]() {
        if (c.chance(1, 80)) return c.chance(1, 60) ? c.pick(std::vector<int>{1000, 32768, 65537}) : c.pick(std::vector<int>{127, 128, 130, 255, 256, 300});
        return c.chance(1, 12) ? c.range(0, 40) : c.range(0, 4);
    };
    auto act = [&](char k, int n) { s.acts.push_back(Act{k, next++, n}); };
    switch (form) {
        case Ret1: act('R', 1); break;
        case RetQ: act((kind == KVoid || kind == KOutVoid) ? 'D' : 'R', cnt()); break;
        case RetList2: act('R', 1); act('R', 1); break;
        case RetList3: act('R', 1); act('R', 1); act('R', 1); break;
        case RetMix: act('R', 1); act('R', cnt()); act('R', 1); act('R', cnt()); break;
        case RetDefault: act('D', 1); break;
        case Thr1: act('i', 1); break;
        case ThrS: act('s', 1); break;
        case ThrE: act('e', 1); break;
        case ThrQ: act('i', cnt()); break;
        case ThrQE: act('e', cnt()); break;
        case ThrList2: act('i', 1); act('s', 1); break;
        case ThrList3: act('e', 1); act('i', 1); act('e', 1); break;
        case ThrMix: act('i', 1); act('e', cnt()); act('s', 1); break;
        case Do1: act('F', 1); break;
        case DoQ: act('F', cnt()); break;
        case DoList2: act('F', 1); act('F', 1); break;
        case DoList3: act('F', 1); act('F', 1); act('F', 1); break;
        case DoMix: act('F', cnt()); act('F', 1); act('F', cnt()); break;
        case Set1: act('S', 1); break;
        case AlwaysRet: act('R', -1); break;
        case AlwaysRetDefault: act('D', -1); break;
        case AlwaysThr: act('i', -1); break;
        case AlwaysThrE: act('e', -1); break;
        case AlwaysDoF: act('F', -1); break;
        case AlwaysSet: act('S', -1); break;
    }
    return s;
}

// expected text of performing an action through method kind k
static std::string expected(int k, const Act &a) {
    switch (a.kind) {
        case 'i': return cat("throw int ", a.v);
        case 's': return cat("throw string s", a.v);
        case 'e': return cat("throw UserError ", a.v);
        case 'S': return k == KOut ? cat("ret ", a.v, " set ", a.v + 1, " ", a.v + 2) : cat("void set ", a.v + 1);
    }
    std::string pre = a.kind == 'F' ? cat("[call ", a.v, "] ") : std::string();
    std::string tail = k == KOut ? " set -1 -1" : k == KOutVoid ? " set -1" : "";
    int val = a.kind == 'F' ? callableValue(a.v, 0) : a.kind == 'D' ? 0 : a.v;
    switch (k) {
        case KInt: case KOut: return pre + cat("ret ", val) + tail;
        case KVoid: case KOutVoid: return pre + "void" + tail;
        case KStr: return pre + (a.kind == 'D' ? std::string("ret ") : show(Make<std::string>::of(val)));
        case KRef: return pre + cat("ref ", a.v % 64);
        case KUptr: return pre + cat("ret ", val);
        case KBig: return pre + (a.kind == 'D' ? std::string("ret big 0  0") : show(mkBig(val)));
        case KDouble: return pre + (a.kind == 'D' ? std::string("ret 0") : cat("ret ", Make<double>::of(val)));
    }
    return "?";
}

static void oneCase(pbt::Ctx &c) {
    for (int i = 0; i < 64; i++) refPool[i] = i;
    Mock<I> mock;
    I &obj = mock.get();
    std::deque<Act> model[NKinds];
    bool stubbed[NKinds] = {};
    int next = 1, calls = 0, quantified = 0;
    std::unordered_set<int> kindsUsed;
    int kinds[3]; int nk = c.range(1, 3);
    for (int i = 0; i < nk; i++) kinds[i] = c.range(0, NKinds - 1);

    auto stub = [&](int k) {
        std::vector<Step> steps;
        std::deque<Act> m;
        uint32_t mode = c.weighted({12, 1, 1, 1});
        std::string text;
        if (mode == 1 && k != KUptr && k != KRef) {   // Fake: default value for ever
            text = cat("Fake(", kindName[k], ")");
            switch (k) {
                case KInt: Fake(Method(mock, f)); break;
                case KVoid: Fake(Method(mock, v)); break;
                case KStr: Fake(Method(mock, s)); break;
                case KBig: Fake(Method(mock, b)); break;
                case KDouble: Fake(Method(mock, n)); break;
                case KOut: Fake(Method(mock, o)); break;
                case KOutVoid: Fake(Method(mock, w)); break;
            }
            m.push_back(Act{'D', 0, -1});
        } else if (mode == 2) {   // assignment of a callable: for ever
            int v = next++;
            text = cat(kindName[k], " = callable ", v);
            switch (k) {
                case KInt: Method(mock, f) = Caller<int>{v}; break;
                case KVoid: Method(mock, v) = Caller<void>{v}; break;
                case KStr: Method(mock, s) = Caller<std::string>{v}; break;
                case KRef: Method(mock, r) = Caller<int &>{v}; break;
                case KUptr: Method(mock, u) = std::function<std::unique_ptr<int>(int &)>(Caller<std::unique_ptr<int>>{v}); break;
                case KBig: Method(mock, b) = Caller<Big>{v}; break;
                case KDouble: Method(mock, n) = Caller<double>{v}; break;
                case KOut: Method(mock, o) = [v](int &, int *) -> int { return Caller<int>{v}(0); }; break;
                case KOutVoid: Method(mock, w) = [v](int &) { Caller<void>{v}(0); }; break;
            }
            m.push_back(Act{'F', v, -1});
        } else if (mode == 3 && (k == KInt || k == KStr || k == KDouble || k == KBig || k == KRef)) {   // assignment of a value
            int v = next++;
            text = cat(kindName[k], " = value ", v);
            switch (k) {
                case KInt: Method(mock, f) = Make<int>::of(v); break;
                case KStr: Method(mock, s) = Make<std::string>::of(v); break;
                case KDouble: Method(mock, n) = Make<double>::of(v); break;
                case KBig: Method(mock, b) = Make<Big>::of(v); break;
                case KRef: Method(mock, r) = refPool[v % 64]; break;
            }
            m.push_back(Act{'R', v, -1});
        } else {
            std::vector<int> fs = formsOf(k, false), ts = formsOf(k, true);
            text = cat("When(", kindName[k], ")");
            int count = 0;
            while (count < 6 && c.more(2)) {
                pbt::Span sp(c);
                count++;
                steps.push_back(genStep(c, k, c.pick(fs), next));
            }
            if (c.chance(1, 4)) steps.push_back(genStep(c, k, c.pick(ts), next));
            for (auto &s : steps) {
                text += cat(".", formName[s.form], "{");
                for (auto &a : s.acts) {
                    text += cat(" ", a.kind, a.v, "x", a.n);
                    m.push_back(a);
                    if (a.n > 1) quantified++;
                    kindsUsed.insert(a.kind);
                }
                text += " }";
                c.label(formName[s.form]);
            }
            switch (k) {
                case KInt: runScript<Steps<int>>(lv(When(Method(mock, f))), steps); break;
                case KVoid: runScript<Steps<void>>(lv(When(Method(mock, v))), steps); break;
                case KStr: runScript<Steps<std::string>>(lv(When(Method(mock, s))), steps); break;
                case KRef: runScript<Steps<int &>>(lv(When(Method(mock, r))), steps); break;
                case KUptr: runScript<Steps<std::unique_ptr<int>>>(lv(When(Method(mock, u))), steps); break;
                case KBig: runScript<Steps<Big>>(lv(When(Method(mock, b))), steps); break;
                case KDouble: runScript<Steps<double>>(lv(When(Method(mock, n))), steps); break;
                case KOut: runScript<StepsOut>(lv(When(Method(mock, o))), steps); break;
                case KOutVoid: runScript<StepsOutVoid>(lv(When(Method(mock, w))), steps); break;
            }
        }
        c.log(text);
        model[k] = m;
        stubbed[k] = true;
    };

    auto call = [&](int k, bool quiet = false) {
        effects.clear();
        std::string got = outcome([&]() -> std::string {
            switch (k) {
                case KInt: return show(obj.f(1));
                case KVoid: obj.v(1); return "void";
                case KStr: return show(obj.s(1));
                case KRef: { int &r = obj.r(1); return cat("ref ", &r - refPool); }
                case KUptr: return show(obj.u(1));
                case KBig: return show(obj.b(1));
                case KDouble: return show(obj.n());
                case KOut: { int x = -1, y = -1; int r = obj.o(x, &y); return cat("ret ", r, " set ", x, " ", y); }
                case KOutVoid: { int x = -1; obj.w(x); return cat("void set ", x); }
            }
            return "?";
        });
        std::string pre;
        for (auto &e : effects) pre += "[" + e + "] ";
        got = pre + got;
        std::deque<Act> &m = model[k];
        while (!m.empty() && m.front().n == 0) m.pop_front();
        std::string want;
        if (m.empty()) want = "unexpected";
        else {
            want = expected(k, m.front());
            if (m.front().n > 0) m.front().n--;
        }
        if (!quiet || got != want) c.log(cat("call ", kindName[k], " -> ", got));
        if (got != want) c.eq(got, want, cat("call of ", kindName[k]));
        calls++;
    };

    for (int i = 0; i < nk; i++) { pbt::Span sp(c); if (!stubbed[kinds[i]]) stub(kinds[i]); }
    int ops = 0;
    while (ops < 40 && c.more(10)) {
        pbt::Span sp(c);
        ops++;
        int k = kinds[c.draw((uint32_t) nk)];
        uint32_t what = c.weighted({12, 2, 1, 1});
        if (what == 0) call(k);
        else if (what == 1) { int n = c.range(2, 12); for (int i = 0; i < n; i++) call(k); }
        else if (what == 2) stub(k);
        else {   // use up the current action
            std::deque<Act> &m = model[k];
            while (!m.empty() && m.front().n == 0) m.pop_front();
            int n = m.empty() || m.front().n < 0 ? 1 : m.front().n;
            c.log(cat("call ", kindName[k], " ", n, " times"));
            for (int i = 0; i < n; i++) call(k, true);
            if (n > 100) c.label("count above 100");
        }
    }
    c.nontrivialIf(calls >= 2 && (quantified > 0 || kindsUsed.size() >= 2));
}

PBT_MAIN("C01", oneCase)
