// Argument conditions chosen at run time, with their plain-C++ meaning.
#pragma once
#include "fk.hpp"

struct Cond {
    int kind;   // 0 literal 1 _ 2 Any() 3 Eq 4 Gt 5 Ge 6 Lt 7 Le 8 Ne 9 Any<T>()
    int v;
    bool accepts(int x) const {
        switch (kind) {
            case 0: case 3: return x == v;
            case 4: return x > v;
            case 5: return x >= v;
            case 6: return x < v;
            case 7: return x <= v;
            case 8: return x != v;
        }
        return true;
    }
    std::string text() const {
        static const char *n[] = {"", "_", "Any()", "Eq ", "Gt ", "Ge ", "Lt ", "Le ", "Ne ", "Any<int>()"};
        return (kind == 1 || kind == 2 || kind == 9) ? std::string(n[kind]) : cat(n[kind], v);
    }
    // rendering used by FakeIt's messages
    std::string rendered() const {
        static const char *n[] = {"", "Any", "Any", "", ">", ">=", "<", "<=", "!=", "Any"};
        return (kind == 1 || kind == 2 || kind == 9) ? std::string(n[kind]) : cat(n[kind], v);
    }
};

inline Cond genCond(pbt::Ctx &c, int lo, int hi) {
    Cond k;
    k.kind = (int) c.weighted({3, 2, 1, 1, 1, 1, 1, 1, 1, 1});
    k.v = c.range(lo, hi);
    return k;
}

// calls f with the matcher object described by k
template<class F> auto withCond(const Cond &k, F &&f) -> decltype(f(Eq(k.v))) {
    switch (k.kind) {
        case 0: return f(k.v);
        case 1: return f(_);
        case 2: return f(Any());
        case 3: return f(Eq(k.v));
        case 4: return f(Gt(k.v));
        case 5: return f(Ge(k.v));
        case 6: return f(Lt(k.v));
        case 7: return f(Le(k.v));
        case 8: return f(Ne(k.v));
    }
    return f(Any<int>());
}
// a smaller set (kinds as left by normSmall), to bound the number of instantiations for further positions
template<class F> auto withCondSmall(const Cond &k, F &&f) -> decltype(f(Eq(k.v))) {
    switch (k.kind) {
        case 0: return f(k.v);
        case 1: return f(_);
        case 4: return f(Gt(k.v));
        case 7: return f(Le(k.v));
    }
    return f(Ne(k.v));
}
inline Cond normSmall(Cond k) {
    switch (k.kind) {
        case 0: break;
        case 1: case 2: case 9: k.kind = 1; break;
        case 3: case 4: k.kind = 4; break;
        case 5: case 6: k.kind = 7; break;
        default: k.kind = 8;
    }
    return k;
}
