// Actions and cells used by the generated programs.
#pragma once
#include "kinds.hpp"

namespace kinds {

inline void dead() { throw Fail{"the body of a mocked method ran"}; }

// the same object; the compiler can no longer tell its dynamic type, so that calls go through the virtual table
template<class T> __attribute__((noinline)) T &hide(T &x) { T *p = &x; asm volatile("" : "+r"(p) : : "memory"); return *p; }

template<class T> std::string zeroOf() { T v{}; return show(v); }

inline int &dtors() { static int n = 0; return n; }   // how often (weighted by class) a real destructor ran

// objects for reference results
template<class T> T &cell(int n) {
    static std::map<int, std::unique_ptr<T>> *m = new std::map<int, std::unique_ptr<T>>();
    auto &p = (*m)[n];
    if (!p) p.reset(new T(make<T>(n)));
    return *p;
}

// equal exactly when == says so
template<class T> std::string ident(const T &v) { return show(v); }
inline std::string ident(const SPI &v) { return addr(v.get()); }

inline int &lastId() { static int n = 0; return n; }

// produces the id-th value of R and notes who produced it; accepts any arguments
template<class R> struct Answer {
    int id;
    explicit Answer(int n) : id(n) {}
    template<class... A> R operator()(A &&...) const { lastId() = id; return make<R>(id); }
};
template<class T> struct Answer<T &> {
    int id;
    explicit Answer(int n) : id(n) {}
    template<class... A> T &operator()(A &&...) const { lastId() = id; return cell<typename Naked<T>::type>(id); }
};
template<> struct Answer<void> {
    int id;
    explicit Answer(int n) : id(n) {}
    template<class... A> void operator()(A &&...) const { lastId() = id; }
};

// text of the result of a call: value (and address for references)
template<class R> struct Result {
    template<class F> static std::string of(F f) { lastId() = 0; auto v = f(); return show(v); }
    static std::string want(int id) { return kinds::want<R>(id); }
    template<class F> static std::string plain(F f) { return of(f); }
    static std::string zero() { return show(typename Naked<R>::type{}); }
};
template<class T> struct Result<T &> {
    typedef typename Naked<T>::type N;
    template<class F> static std::string of(F f) { lastId() = 0; T &v = f(); return show(v) + "@" + addr(&v); }
    static std::string want(int id) { return show(cell<N>(id)) + "@" + addr(&cell<N>(id)); }
    template<class F> static std::string plain(F f) { lastId() = 0; T &v = f(); return show(v); }   // any object will do
    static std::string zero() { return show(N{}); }
};
template<> struct Result<void> {
    template<class F> static std::string of(F f) { lastId() = 0; f(); return "void"; }
    static std::string want(int) { return "void"; }
};

// exceptions of the user
struct Err : std::runtime_error {
    int n;
    explicit Err(int v) : std::runtime_error("an error with a text that does not fit into a small buffer " + str(v)), n(v) {}
};
template<class F> std::string outcome09(F f) {
    try { return outcome(f); }
    catch (int &n) { std::string t = "int " + str(n); n += 1000; return t; }
    catch (std::string &s) { std::string t = "string " + s; s = "caught"; return t; }
    catch (const DefaultValueInstatiationException &) { return "no default"; }
}

// a member whose constructions and destructions are counted
struct Track {
    int v;
    const Track *self;
    static int &alive() { static int n = 0; return n; }
    static int &bad() { static int n = 0; return n; }
    static void reset() { alive() = 0; bad() = 0; }
    Track() : v(-1), self(this) { alive()++; }
    Track(int n) : v(n), self(this) { alive()++; }
    Track(const Track &o) : v(o.v), self(this) { alive()++; }
    ~Track() { alive()--; if (self != this) bad()++; self = nullptr; }
};
template<> struct K<Track> {
    static Track make(int n) { return Track(n); }
    static std::string show(const Track &t) { return t.self == &t ? str(t.v) + "/Track" : "dead Track"; }
};

}
