// C03: argument matchers accept exactly the arguments they describe.
#include "fk.hpp"
#include <cmath>
#include <deque>
#include <limits>

enum class Color : unsigned char { Red, Green, Blue };
struct OnlyEq { int v; bool operator==(const OnlyEq &o) const { return v == o.v; } bool operator!=(const OnlyEq &o) const { return v != o.v; } };
// a partial order: a<=b is not !(b<a), so the six relations are all distinguishable
struct Partial {
    int x, y;
    bool operator==(const Partial &o) const { return x == o.x && y == o.y; }
    bool operator!=(const Partial &o) const { return !(*this == o); }
    bool operator<=(const Partial &o) const { return x <= o.x && y <= o.y; }
    bool operator<(const Partial &o) const { return *this <= o && *this != o; }
    bool operator>=(const Partial &o) const { return o <= *this; }
    bool operator>(const Partial &o) const { return o < *this; }
};

static int arr[4];
template<class T> struct Pool;
#define POOL(T, ...) template<> struct Pool<T> { static const std::vector<T> &get() { static const std::vector<T> v{__VA_ARGS__}; return v; } };
POOL(int, 0, 1, -1, 2, 5, 100, std::numeric_limits<int>::max(), std::numeric_limits<int>::min())
POOL(short, (short) 0, (short) 1, (short) -1, (short) 5, (short) 32767)
POOL(long, 0L, 1L, -1L, 5L, std::numeric_limits<long>::max(), std::numeric_limits<long>::min(), 4294967296L, 4294967295L)
POOL(long long, 0LL, 1LL, -1LL, 5LL, 100LL, std::numeric_limits<long long>::max(), std::numeric_limits<long long>::min(), 4294967296LL, 4294967297LL)
POOL(unsigned, 0u, 1u, 5u, 200u, 4294967295u, 2147483648u)
POOL(unsigned char, (unsigned char) 0, (unsigned char) 1, (unsigned char) 200, (unsigned char) 255)
POOL(char, 'a', 'b', 'A', '\0', (char) -1)
POOL(double, 0.0, -0.0, 1.0, 1.0000000001, -1.5, 5.0, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 1e300, 1e-300)
POOL(float, 0.0f, 1.0f, 1.5f, -2.25f, std::numeric_limits<float>::infinity(), std::numeric_limits<float>::quiet_NaN())
POOL(std::string, "", "a", "b", "ab", "abc", "ABC", std::string("a\0b", 3), "a much longer string that does not fit the small buffer")
POOL(Color, Color::Red, Color::Green, Color::Blue)
POOL(OnlyEq, OnlyEq{0}, OnlyEq{1}, OnlyEq{2})
POOL(Partial, Partial{0, 0}, Partial{0, 1}, Partial{1, 0}, Partial{1, 1}, Partial{2, 0})
POOL(std::vector<int>, std::vector<int>{}, std::vector<int>{1}, std::vector<int>{1, 2}, std::vector<int>{2})
template<> struct Pool<int *> { static const std::vector<int *> &get() { static const std::vector<int *> v{arr, arr + 1, arr + 2, nullptr}; return v; } };
template<> struct Pool<bool> { static const std::vector<char> &get() { static const std::vector<char> v{0, 1}; return v; } };
template<> struct Pool<const char *> { static const std::vector<const char *> &get() { static const std::vector<const char *> v{"", "a", "b", "ab", "abc", "ABC", "abd", "a much longer string that does not fit the small buffer", "\xff"}; return v; } };

template<class T> std::string str(const T &v) { return cat(v); }
static std::string str(bool v) { return v ? "true" : "false"; }
static std::string str(Color v) { return cat("Color", (int) v); }
static std::string str(const OnlyEq &v) { return cat("OnlyEq", v.v); }
static std::string str(const Partial &v) { return cat("P(", v.x, ",", v.y, ")"); }
static std::string str(const std::vector<int> &v) { std::string s = "vec"; for (int i : v) s += cat(" ", i); return s; }
static std::string str(int *v) { return v ? cat("arr+", v - arr) : std::string("null"); }
static std::string str(const std::string &v) { return cat("\"", v.c_str(), "\"/", v.size()); }
static std::string str(char v) { return cat("char ", (int) v); }
static std::string str(unsigned char v) { return cat("uchar ", (int) v); }

template<class P> struct IF {
    virtual int val(P) = 0;
    virtual int cref(const P &) = 0;
    virtual int two(P, P) = 0;
};

static const char *opNames[] = {"literal", "Eq", "Ne", "Lt", "Le", "Gt", "Ge", "_", "Any()"};

template<class P, class E> bool relEq(int op, const P &p, const E &e) {
    switch (op) {
        case 0: case 1: return p == e;
        case 2: return p != e;
    }
    return true;
}
template<class P, class E> bool rel(std::true_type, int op, const P &p, const E &e) {
    switch (op) {
        case 3: return p < e;
        case 4: return p <= e;
        case 5: return p > e;
        case 6: return p >= e;
    }
    return relEq(op, p, e);
}
template<class P, class E> bool rel(std::false_type, int op, const P &p, const E &e) { return relEq(op, p, e); }

template<class E, class F> void matcherEq(int op, E &&e, F &&f) {
    switch (op) {
        case 0: return f(std::forward<E>(e));
        case 1: return f(Eq(std::forward<E>(e)));
        case 2: return f(Ne(std::forward<E>(e)));
        case 7: return f(_);
    }
    return f(Any());
}
template<class E, class F> void matcher(std::true_type, int op, E &&e, F &&f) {
    switch (op) {
        case 3: return f(Lt(std::forward<E>(e)));
        case 4: return f(Le(std::forward<E>(e)));
        case 5: return f(Gt(std::forward<E>(e)));
        case 6: return f(Ge(std::forward<E>(e)));
    }
    return matcherEq(op, std::forward<E>(e), f);
}
template<class E, class F> void matcher(std::false_type, int op, E &&e, F &&f) { matcherEq(op, std::forward<E>(e), f); }

template<class P, class M, class Rel> void drive(pbt::Ctx &c, Mock<IF<P>> &mock, int use, int position, M &&withMatcher, Rel accepts, const std::string &what) {
    IF<P> &obj = mock.get();
    auto &pool = Pool<P>::get();
    bool sawYes = false, sawNo = false;
    auto setup = [&](auto &&m) {
        switch (use) {
            case 0:
                if (position == 0) When(Method(mock, val).Using(m)).AlwaysReturn(1);
                else if (position == 1) When(Method(mock, cref).Using(m)).AlwaysReturn(1);
                else When(Method(mock, two).Using(_, m)).AlwaysReturn(1);
                break;
        }
    };
    When(Method(mock, val)).AlwaysReturn(0);
    When(Method(mock, cref)).AlwaysReturn(0);
    When(Method(mock, two)).AlwaysReturn(0);
    std::vector<uint32_t> actuals;
    int n = 0;
    while (n < 8 && c.more(5)) { pbt::Span sp(c); n++; actuals.push_back(c.draw((uint32_t) pool.size())); }
    if (use == 0) {
        withMatcher(setup);
        for (uint32_t i : actuals) {
            P a = pool[i];
            int got = position == 0 ? obj.val(a) : position == 1 ? obj.cref(a) : obj.two(pool[c.draw((uint32_t) pool.size())], a);
            bool want = accepts(a);
            (want ? sawYes : sawNo) = true;
            c.log(cat("stub: actual ", str(a), " accepted ", got));
            c.eq(got, (int) want, cat(what, " given ", str(a)));
        }
    } else {
        int want = 0;
        std::deque<P> keep;   // arguments passed by reference stay alive until verification
        for (uint32_t i : actuals) {
            P a = pool[i];
            keep.push_back(a);
            if (position == 0) obj.val(a); else if (position == 1) obj.cref(keep.back()); else obj.two(pool[c.draw((uint32_t) pool.size())], a);
            bool w = accepts(a);
            (w ? sawYes : sawNo) = true;
            want += w;
            c.log(cat("verify: actual ", str(a)));
        }
        std::vector<int> verdicts;
        auto verify = [&](auto &&m) {
            if (position == 0) verdicts.push_back(Verify(Method(mock, val).Using(m)).Exactly(want));
            else if (position == 1) verdicts.push_back(Verify(Method(mock, cref).Using(m)).Exactly(want));
            else verdicts.push_back(Verify(Method(mock, two).Using(_, m)).Exactly(want));
        };
        withMatcher(verify);
        c.eq(verdicts.size(), 1u, "verifications run");
        c.eq(verdicts[0], 1, cat(what, " verified exactly ", want, " of ", actuals.size(), " calls"));
    }
    c.nontrivialIf(sawYes && sawNo);
}

template<class P, class E, class Ordered> void pairCase(pbt::Ctx &c, const char *name) {
    Mock<IF<P>> mock;
    int op = Ordered::value ? c.range(0, 8) : (int) c.pick(std::vector<int>{0, 1, 2, 7, 8});
    auto &ep = Pool<E>::get();
    E e = ep[c.draw((uint32_t) ep.size())];
    const E copy = e;
    int use = c.range(0, 1), position = c.range(0, 2), style = c.range(0, 1);
    c.label(cat(name, " ", opNames[op]));
    std::string what = cat(name, " ", opNames[op], " ", str(e));
    c.log(cat(what, use ? " in Verify" : " in When", " pos ", position, style ? " variable" : " temporary"));
    drive<P>(c, mock, use, position,
             [&](auto f) {
                 if (style == 0) matcher(Ordered(), op, E(e), f);
                 else {
                     E var = e;
                     matcher(Ordered(), op, var, f);
                     var = ep[c.draw((uint32_t) ep.size())];   // later changes of the variable must not matter
                 }
             },
             [&](const P &p) { return rel(Ordered(), op, p, copy); }, what);
}

// C-string comparisons by content
static void strCase(pbt::Ctx &c) {
    typedef const char *P;
    Mock<IF<P>> mock;
    int op = c.range(0, 5);
    static const char *n[] = {"StrEq", "StrNe", "StrLt", "StrLe", "StrGt", "StrGe"};
    std::string e = c.pick(Pool<P>::get());
    const std::string copy = e;
    int use = c.range(0, 1), position = c.range(0, 2), style = c.range(0, 1);
    c.label(n[op]);
    std::string what = cat(n[op], " ", str(e));
    c.log(cat(what, use ? " in Verify" : " in When", style ? " variable" : " temporary"));
    drive<P>(c, mock, use, position,
             [&](auto f) {
                 std::string var = e;
                 if (style == 0)
                     switch (op) {
                         case 0: f(StrEq(std::string(e))); break;
                         case 1: f(StrNe(std::string(e))); break;
                         case 2: f(StrLt(std::string(e))); break;
                         case 3: f(StrLe(e.c_str())); break;
                         case 4: f(StrGt(std::string(e))); break;
                         case 5: f(StrGe(e.c_str())); break;
                     }
                 else
                     switch (op) {
                         case 0: f(StrEq(var)); break;
                         case 1: f(StrNe(var)); break;
                         case 2: f(StrLt(var)); break;
                         case 3: f(StrLe(var)); break;
                         case 4: f(StrGt(var)); break;
                         case 5: f(StrGe(var)); break;
                     }
                 var = "zzz";
             },
             [&](const P &p) {
                 std::string a(p);
                 int k = a.compare(copy) < 0 ? -1 : a.compare(copy) > 0;
                 switch (op) {
                     case 0: return k == 0;
                     case 1: return k != 0;
                     case 2: return k < 0;
                     case 3: return k <= 0;
                     case 4: return k > 0;
                 }
                 return k >= 0;
             }, what);
}

static void approxCase(pbt::Ctx &c) {
    std::vector<double> es{0, 1, -1.5, 5, 1e300, 100}, ms{0, 0.5, 1, 0.0000000001, 1e301, -1};
    double e = c.pick(es), m = c.pick(ms);
    int use = c.range(0, 1), position = c.range(0, 2), style = c.range(0, 1);
    if (c.coin()) {
        c.label("ApproxEq double");
        Mock<IF<double>> mock;
        std::string what = cat("ApproxEq(", e, ",", m, ")");
        c.log(what);
        drive<double>(c, mock, use, position,
                      [&](auto f) { if (style) f(ApproxEq(double(e), double(m))); else { double v = e, w = m; f(ApproxEq(v, w)); v = 77; w = 99; } },
                      [&](double p) { return std::fabs(p - e) <= m; }, what);
    } else {
        c.label("ApproxEq float");
        Mock<IF<float>> mock;
        float fe = (float) (std::fabs(e) > 1000 ? 3 : e), fm = (float) (std::fabs(m) > 1000 ? 2 : m);
        std::string what = cat("ApproxEq float(", fe, ",", fm, ")");
        c.log(what);
        drive<float>(c, mock, use, position, [&](auto f) { f(ApproxEq(float(fe), float(fm))); }, [&](float p) { return std::fabs(p - fe) <= fm; }, what);
    }
}

// several positions: a call is accepted iff every position accepts its own argument
struct M4 { virtual int m(int, std::string, double, const char *) = 0; virtual int p(int, int, int) = 0; };
static void positionsCase(pbt::Ctx &c) {
    Mock<M4> mock;
    int k[4], v[4];
    for (int i = 0; i < 4; i++) { k[i] = c.range(0, 2); v[i] = c.range(0, 2); }
    auto sv = [](int i) { return std::string(i == 0 ? "x" : i == 1 ? "y" : "longer string value to be allocated"); };
    bool inVerify = c.coin();
    auto apply = [&](auto f) {
        auto l3 = [&](auto &&a, auto &&b, auto &&d) {
            switch (k[3]) { case 0: f(a, b, d, _); break; case 1: f(a, b, d, StrEq(sv(v[3]))); break; default: f(a, b, d, StrNe(sv(v[3]))); }
        };
        auto l2 = [&](auto &&a, auto &&b) { switch (k[2]) { case 0: l3(a, b, _); break; case 1: l3(a, b, v[2] * 1.5); break; default: l3(a, b, Gt(v[2] * 1.5)); } };
        auto l1 = [&](auto &&a) { switch (k[1]) { case 0: l2(a, _); break; case 1: l2(a, sv(v[1])); break; default: l2(a, Ne(sv(v[1]))); } };
        switch (k[0]) { case 0: l1(_); break; case 1: l1(v[0]); break; default: l1(Le(v[0])); }
    };
    auto accepts = [&](const int *x) {
        bool ok = true;
        ok = ok && (k[0] == 0 || (k[0] == 1 ? x[0] == v[0] : x[0] <= v[0]));
        ok = ok && (k[1] == 0 || (k[1] == 1 ? x[1] == v[1] : x[1] != v[1]));
        ok = ok && (k[2] == 0 || (k[2] == 1 ? x[2] == v[2] : x[2] > v[2]));
        ok = ok && (k[3] == 0 || (k[3] == 1 ? x[3] == v[3] : x[3] != v[3]));
        return ok;
    };
    std::string what = "positions";
    for (int i = 0; i < 4; i++) what += cat(" ", k[i], ":", v[i]);
    c.log(cat(what, inVerify ? " in Verify" : " in When"));
    c.label("positions");
    When(Method(mock, m)).AlwaysReturn(0);
    if (!inVerify) apply([&](auto &&a, auto &&b, auto &&d, auto &&e) { When(Method(mock, m).Using(a, b, d, e)).AlwaysReturn(1); });
    int yes = 0, no = 0, n = 0;
    while (n < 10 && c.more(6)) {
        pbt::Span sp(c);
        n++;
        int x[4];
        for (int i = 0; i < 4; i++) x[i] = c.chance(1, 2) ? c.range(0, 2) : v[i];
        std::string s3 = sv(x[3]);
        int got = mock.get().m(x[0], sv(x[1]), x[2] * 1.5, inVerify ? (x[3] == 0 ? "x" : x[3] == 1 ? "y" : "longer string value to be allocated") : s3.c_str());
        bool want = accepts(x);
        (want ? yes : no)++;
        c.log(cat("call ", x[0], " ", x[1], " ", x[2], " ", x[3], " -> ", got));
        if (!inVerify) c.eq(got, (int) want, what);
    }
    if (inVerify) {
        bool ok = false;
        apply([&](auto &&a, auto &&b, auto &&d, auto &&e) { ok = Verify(Method(mock, m).Using(a, b, d, e)).Exactly(yes); });
        c.check(ok, cat(what, " not verified exactly ", yes, " times of ", n));
    }
    c.nontrivialIf(yes && no);
}

static void predicateCase(pbt::Ctx &c) {
    Mock<M4> mock;
    uint32_t table = c.draw(256);
    int form = c.range(0, 2);
    c.label("predicate");
    c.log(cat("predicate table ", table, " form ", form));
    auto pred = [table](int &a, int &b, int &d) { return ((table >> ((a + 3 * b + 5 * d) & 7)) & 1) != 0; };
    When(Method(mock, p)).AlwaysReturn(0);
    if (form == 0) When(Method(mock, p).Matching(pred)).AlwaysReturn(1);
    if (form == 1) When(Method(mock, p)(pred)).AlwaysReturn(1);
    int yes = 0, no = 0, n = 0;
    while (n < 10 && c.more(6)) {
        pbt::Span sp(c);
        n++;
        int x = c.range(0, 7), y = c.range(0, 7), z = c.range(0, 7);
        int got = mock.get().p(x, y, z);
        bool want = (table >> ((x + 3 * y + 5 * z) & 7)) & 1;
        (want ? yes : no)++;
        c.log(cat("call ", x, " ", y, " ", z, " -> ", got));
        if (form != 2) c.eq(got, (int) want, "predicate");
    }
    c.check(Verify(Method(mock, p).Matching(pred)).Exactly(yes), cat("predicate not verified exactly ", yes, " times of ", n));
    c.nontrivialIf(yes && no);
}

// expected values that can only be moved
struct Owner {   // equal by content
    std::unique_ptr<int> p;
    explicit Owner(int n) : p(n < 0 ? nullptr : new int(n)) {}
    int get() const { return p ? *p : -1; }
    bool operator==(const Owner &o) const { return get() == o.get(); }
    bool operator!=(const Owner &o) const { return get() != o.get(); }
    bool operator<(const Owner &o) const { return get() < o.get(); }
    bool operator<=(const Owner &o) const { return get() <= o.get(); }
    bool operator>(const Owner &o) const { return get() > o.get(); }
    bool operator>=(const Owner &o) const { return get() >= o.get(); }
};
struct MoveOnly { virtual int val(Owner) = 0; virtual int cref(const Owner &) = 0; virtual int ptr(const std::unique_ptr<int> &, int) = 0; };
static void moveOnlyCase(pbt::Ctx &c) {
    Mock<MoveOnly> mock;
    int op = c.range(0, 6), e = c.range(-1, 2), position = c.range(0, 2), use = c.range(0, 1);
    if (position == 2) op = c.range(0, 2);
    c.label(cat("move-only ", opNames[op]));
    std::string what = cat("move-only ", opNames[op], " ", e);
    c.log(cat(what, use ? " in Verify" : " in When", " pos ", position));
    When(Method(mock, val)).AlwaysReturn(0);
    When(Method(mock, cref)).AlwaysReturn(0);
    When(Method(mock, ptr)).AlwaysReturn(0);
    int want = 0;
    bool ok = true;
    auto apply = [&](auto &&a) {
        if (position == 0) { auto x = Method(mock, val).Using(std::forward<decltype(a)>(a)); if (use) ok = Verify(x).Exactly(want); else When(x).AlwaysReturn(1); }
        else { auto x = Method(mock, cref).Using(std::forward<decltype(a)>(a)); if (use) ok = Verify(x).Exactly(want); else When(x).AlwaysReturn(1); }
    };
    auto applyPtr = [&](auto &&a) {
        auto x = Method(mock, ptr).Using(std::forward<decltype(a)>(a), Ge(1));
        if (use) ok = Verify(x).Exactly(want); else When(x).AlwaysReturn(1);
    };
    auto setup = [&] {
        if (position == 2) {
            switch (op) {   // the expected pointer is null
                case 0: if (e & 1) applyPtr(std::unique_ptr<int>()); else applyPtr(nullptr); break;
                case 1: if (e & 1) applyPtr(Eq(std::unique_ptr<int>())); else applyPtr(Eq(nullptr)); break;
                case 2: if (e & 1) applyPtr(Ne(std::unique_ptr<int>())); else applyPtr(Ne(nullptr)); break;
            }
            return;
        }
        switch (op) {
            case 0: apply(Owner(e)); break;
            case 1: apply(Eq(Owner(e))); break;
            case 2: apply(Ne(Owner(e))); break;
            case 3: apply(Lt(Owner(e))); break;
            case 4: apply(Le(Owner(e))); break;
            case 5: apply(Gt(Owner(e))); break;
            default: apply(Ge(Owner(e))); break;
        }
    };
    if (!use) setup();
    std::deque<Owner> keep;
    int n = 0, yes = 0;
    while (n < 8 && c.more(5)) {
        pbt::Span sp(c);
        n++;
        int a = c.range(-1, 2), k = c.range(0, 2);
        keep.emplace_back(a);
        bool w = position == 2 ? (op == 2) == (a >= 0) && k >= 1 : rel(std::true_type(), op, a, e);
        int got = position == 0 ? mock.get().val(Owner(a)) : position == 1 ? mock.get().cref(keep.back()) : mock.get().ptr(keep.back().p, k);
        yes += w;
        c.log(cat("call ", a, " -> ", got));
        if (!use) c.eq(got, (int) w, cat(what, " given ", a));
    }
    want = yes;
    if (use) { setup(); c.check(ok, cat(what, " not verified exactly ", want, " times of ", n)); }
    c.nontrivialIf(yes && yes < n);
}

// a matcher needs nothing of the type but its own relation
#define ONE(Name, OP) struct Name { int v; bool operator OP(const Name &o) const { return v OP o.v; } };
ONE(OneLt, <) ONE(OneLe, <=) ONE(OneGt, >) ONE(OneGe, >=) ONE(OneEq, ==) ONE(OneNe, !=)
struct Ones {
    virtual int lt(OneLt) = 0; virtual int le(OneLe) = 0; virtual int gt(OneGt) = 0; virtual int ge(OneGe) = 0; virtual int eq(OneEq) = 0; virtual int ne(OneNe) = 0;
};
static void oneRelationCase(pbt::Ctx &c) {
    Mock<Ones> mock;
    int e[6], n = 0, yes[6] = {}, no = 0, some = 0;
    for (int &x : e) x = c.range(0, 3);
    c.label("one relation");
    When(Method(mock, lt)).AlwaysReturn(0); When(Method(mock, le)).AlwaysReturn(0); When(Method(mock, gt)).AlwaysReturn(0);
    When(Method(mock, ge)).AlwaysReturn(0); When(Method(mock, eq)).AlwaysReturn(0); When(Method(mock, ne)).AlwaysReturn(0);
    auto lt = Method(mock, lt).Using(Lt(OneLt{e[0]}));
    auto le = Method(mock, le).Using(Le(OneLe{e[1]}));
    auto gt = Method(mock, gt).Using(Gt(OneGt{e[2]}));
    auto ge = Method(mock, ge).Using(Ge(OneGe{e[3]}));
    auto eq = Method(mock, eq).Using(Eq(OneEq{e[4]}));
    auto ne = Method(mock, ne).Using(Ne(OneNe{e[5]}));
    bool stub = c.coin();
    if (stub) {
        When(lt).AlwaysReturn(1); When(le).AlwaysReturn(1); When(gt).AlwaysReturn(1); When(ge).AlwaysReturn(1); When(eq).AlwaysReturn(1); When(ne).AlwaysReturn(1);
    }
    while (n < 12 && c.more(8)) {
        pbt::Span sp(c);
        n++;
        int which = c.range(0, 5), a = c.range(0, 3), got = 0;
        bool w = false;
        Ones &o = mock.get();
        switch (which) {
            case 0: got = o.lt(OneLt{a}); w = a < e[0]; break;
            case 1: got = o.le(OneLe{a}); w = a <= e[1]; break;
            case 2: got = o.gt(OneGt{a}); w = a > e[2]; break;
            case 3: got = o.ge(OneGe{a}); w = a >= e[3]; break;
            case 4: got = o.eq(OneEq{a}); w = a == e[4]; break;
            case 5: got = o.ne(OneNe{a}); w = a != e[5]; break;
        }
        if (w) { yes[which]++; some = 1; } else no = 1;
        c.log(cat("relation ", which, " expected ", e[which], " given ", a, " -> ", got));
        c.eq(got, (int) (stub && w), cat("relation ", which, " with ", e[which], " given ", a));
    }
    c.check(Verify(lt).Exactly(yes[0]) && Verify(le).Exactly(yes[1]) && Verify(gt).Exactly(yes[2]) && Verify(ge).Exactly(yes[3])
            && Verify(eq).Exactly(yes[4]) && Verify(ne).Exactly(yes[5]), "one of the relations was not verified as often as it held");
    c.nontrivialIf(some && no);
}

typedef std::true_type Ord;
typedef std::false_type EqOnly;
static void oneCase(pbt::Ctx &c) {
#if PART == 1
    switch (c.range(0, 9)) {
        case 0: return pairCase<int, int, Ord>(c, "int");
        case 1: return pairCase<long long, int, Ord>(c, "long long~int");
        case 2: return pairCase<double, double, Ord>(c, "double");
        case 3: return pairCase<std::string, std::string, Ord>(c, "string");
        case 4: return pairCase<std::string, const char *, Ord>(c, "string~const char*");
        case 5: return pairCase<Partial, Partial, Ord>(c, "partial order");
        case 6: return strCase(c);
        case 7: return approxCase(c);
        case 8: return positionsCase(c);
        default: return predicateCase(c);
    }
#else
    switch (c.range(0, 11)) {
        case 10: return moveOnlyCase(c);
        case 11: return oneRelationCase(c);
        case 0: return pairCase<unsigned, unsigned char, Ord>(c, "unsigned~unsigned char");
        case 1: return pairCase<char, char, Ord>(c, "char");
        case 2: return pairCase<Color, Color, Ord>(c, "enum class");
        case 3: return pairCase<OnlyEq, OnlyEq, EqOnly>(c, "equality-only class");
        case 4: return pairCase<std::vector<int>, std::vector<int>, EqOnly>(c, "vector");
        case 5: return pairCase<int *, int *, EqOnly>(c, "pointer");
        case 6: return pairCase<bool, bool, EqOnly>(c, "bool");
        case 7: return pairCase<int, long, Ord>(c, "int~long");
        case 8: return pairCase<float, float, Ord>(c, "float");
        default: return pairCase<double, int, Ord>(c, "double~int");
    }
#endif
}

PBT_MAIN("C03", oneCase)
