// Catalogue of value types used by the generated programs: make(n) builds the n-th value, show() renders it.
// C++11, includes FakeIt first; everything else is plain C++.
#pragma once
#include "fakeit.hpp"
#include <array>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <typeinfo>
#include <utility>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
using namespace fakeit;

namespace kinds {

enum class E8 : unsigned char { zero = 0 };
enum EI { eiZero = 0, eiLast = 1000 };
struct S1 { char a; };
struct S2 { int a, b; };
struct S3 { int a, b, c; };
struct S4 { long a, b; };
struct S5 { long a, b, c; };
struct SD { double a, b; };
struct SF { float a, b, c; };
struct SM { double a; int b; };
struct Big { char a[200]; };
struct alignas(32) Al { long a; char b[32]; };
struct NT {   // not trivially copyable
    std::string s; int v;
    NT() : v(0) {}
    NT(const char *t, int n) : s(t), v(n) {}
    NT(const NT &o) : s(o.s), v(o.v) {}
    NT &operator=(const NT &o) { s = o.s; v = o.v; return *this; }
    ~NT() { v = -77; }
};
struct ND {   // no default constructor
    int v;
    explicit ND(int n) : v(n) {}
};
struct Target { int x, y[8]; };

typedef void (*Fn)(int &);
inline void fn0(int &x) { x += 1; }
inline void fn1(int &x) { x += 2; }
inline void fn2(int &x) { x += 3; }

inline int *cells() { static int c[64]; return c; }

template<class T> struct K;
template<class T> std::string str(const T &v) { std::ostringstream o; o.precision(21); o << v; return o.str(); }

#define KIND_INT(T, EXPR) template<> struct K<T> { static T make(int n) { return (T) (EXPR); } static std::string show(const T &v) { return str((long double) v) + "/" #T; } };
template<> struct K<bool> { static bool make(int n) { return n % 2 != 0; } static std::string show(const bool &v) { return v ? "true" : "false"; } };
KIND_INT(char, 33 + n % 90)
KIND_INT(signed char, n % 2 ? -(n % 100) : n % 100)
KIND_INT(unsigned char, 255 - n % 200)
KIND_INT(short, n % 2 ? -30000 + n : 30000 - n)
KIND_INT(unsigned short, 65535 - n)
KIND_INT(int, n % 2 ? -2000000000 + n : 2000000000 - n)
KIND_INT(unsigned int, 4000000000u + (unsigned) n)
KIND_INT(long, n % 2 ? -4000000000000000L + n : 4000000000000000L - n)
KIND_INT(unsigned long, 18000000000000000000UL + (unsigned long) n)
KIND_INT(long long, n % 2 ? -4000000000000001LL + n : 4000000000000001LL - n)
KIND_INT(unsigned long long, 18000000000000000001ULL + (unsigned long long) n)
KIND_INT(wchar_t, 10000 + n)
KIND_INT(char16_t, 60000 + n % 1000)
KIND_INT(char32_t, 100000 + n)
KIND_INT(float, n + 0.25f)
KIND_INT(double, n * 1.5 + 0.125)
KIND_INT(long double, n * 2.5L + 0.0625L)
KIND_INT(E8, 200 - n % 150)
KIND_INT(EI, n % 1000)
#undef KIND_INT
template<> struct K<int *> { static int *make(int n) { return cells() + n % 64; } static std::string show(int *const &v) { return v ? "cell" + str(v - cells()) : "null"; } };
template<> struct K<const char *> {
    static const char *make(int n) { static const char *t[] = {"zero", "one", "", "three words here", "4"}; return t[n % 5]; }
    static std::string show(const char *const &v) { return v ? std::string("text ") + v + "@" + str((const void *) v) : "null"; }
};
template<> struct K<Fn> {
    static Fn make(int n) { static const Fn t[] = {fn0, fn1, fn2}; return t[n % 3]; }
    static std::string show(const Fn &v) { if (!v) return "null"; int x = 0; v(x); return "fn" + str(x); }
};
typedef int Target::*MemPtr;
template<> struct K<MemPtr> {
    static MemPtr make(int n) { return n % 2 ? (MemPtr) &Target::x : (MemPtr) nullptr; }
    static std::string show(const MemPtr &v) { return v ? "x" : "null"; }
};
template<> struct K<std::string> {
    static std::string make(int n) { return std::string((size_t) (n % 40), (char) ('a' + n % 26)) + str(n); }
    static std::string show(const std::string &v) { return "string " + v; }
};
typedef std::vector<int> VI;
template<> struct K<VI> {
    static VI make(int n) { VI v; for (int i = 0; i < n % 5; i++) v.push_back(n * i); v.push_back(n); return v; }
    static std::string show(const VI &v) { std::string s = "vec"; for (int x : v) s += " " + str(x); return s; }
};
typedef std::pair<int, std::string> PIS;
template<> struct K<PIS> { static PIS make(int n) { return PIS(n, K<std::string>::make(n + 1)); } static std::string show(const PIS &v) { return "pair " + str(v.first) + "," + v.second; } };
template<> struct K<S1> { static S1 make(int n) { S1 s = {(char) (n % 100)}; return s; } static std::string show(const S1 &v) { return "S1 " + str((int) v.a); } };
template<> struct K<S2> { static S2 make(int n) { S2 s = {n, ~n}; return s; } static std::string show(const S2 &v) { return "S2 " + str(v.a) + "," + str(v.b); } };
template<> struct K<S3> { static S3 make(int n) { S3 s = {n, ~n, n * 7}; return s; } static std::string show(const S3 &v) { return "S3 " + str(v.a) + "," + str(v.b) + "," + str(v.c); } };
template<> struct K<S4> { static S4 make(int n) { S4 s = {n, ~(long) n}; return s; } static std::string show(const S4 &v) { return "S4 " + str(v.a) + "," + str(v.b); } };
template<> struct K<S5> { static S5 make(int n) { S5 s = {n, ~(long) n, n * 11L}; return s; } static std::string show(const S5 &v) { return "S5 " + str(v.a) + "," + str(v.b) + "," + str(v.c); } };
template<> struct K<SD> { static SD make(int n) { SD s = {n + .5, -n * .25}; return s; } static std::string show(const SD &v) { return "SD " + str(v.a) + "," + str(v.b); } };
template<> struct K<SF> { static SF make(int n) { SF s = {n + .5f, -n * .25f, n * 2.f}; return s; } static std::string show(const SF &v) { return "SF " + str(v.a) + "," + str(v.b) + "," + str(v.c); } };
template<> struct K<SM> { static SM make(int n) { SM s = {n + .5, n * 3}; return s; } static std::string show(const SM &v) { return "SM " + str(v.a) + "," + str(v.b); } };
template<> struct K<Big> {
    static Big make(int n) { Big b; for (int i = 0; i < 200; i++) b.a[i] = (char) (n + i); return b; }
    static std::string show(const Big &v) { std::string s = "Big"; long h = 0; for (int i = 0; i < 200; i++) h = h * 31 % 1000003 + (unsigned char) v.a[i]; return s + str(h); }
};
template<> struct K<Al> {
    static Al make(int n) { Al b; b.a = n; for (int i = 0; i < 32; i++) b.b[i] = (char) (n * i); return b; }
    static std::string show(const Al &v) { long h = v.a; for (int i = 0; i < 32; i++) h = h * 31 % 1000003 + (unsigned char) v.b[i]; return "Al" + str(h); }
};
template<> struct K<NT> { static NT make(int n) { return NT("a text that does not fit into a small buffer", n); } static std::string show(const NT &v) { return "NT " + v.s + str(v.v); } };
template<> struct K<ND> { static ND make(int n) { return ND(n); } static std::string show(const ND &v) { return "ND " + str(v.v); } };
typedef std::shared_ptr<int> SPI;
template<> struct K<SPI> { static SPI make(int n) { return std::make_shared<int>(n); } static std::string show(const SPI &v) { return v ? "shared " + str(*v) : "null"; } };
typedef std::unique_ptr<int> UPI;   // move-only
template<> struct K<UPI> { static UPI make(int n) { return UPI(new int(n)); } static std::string show(const UPI &v) { return v ? "unique " + str(*v) : "null"; } };
struct MO {   // move-only with a default constructor
    std::unique_ptr<std::string> p;
    MO() {}
    explicit MO(int n) : p(new std::string(K<std::string>::make(n))) {}
};
template<> struct K<MO> { static MO make(int n) { return MO(n); } static std::string show(const MO &v) { return v.p ? "MO " + *v.p : "MO null"; } };

// equality used by matchers for the aggregates
inline bool operator==(const S1 &a, const S1 &b) { return K<S1>::show(a) == K<S1>::show(b); }
inline bool operator==(const S2 &a, const S2 &b) { return K<S2>::show(a) == K<S2>::show(b); }
inline bool operator==(const S3 &a, const S3 &b) { return K<S3>::show(a) == K<S3>::show(b); }
inline bool operator==(const S4 &a, const S4 &b) { return K<S4>::show(a) == K<S4>::show(b); }
inline bool operator==(const S5 &a, const S5 &b) { return K<S5>::show(a) == K<S5>::show(b); }
inline bool operator==(const SD &a, const SD &b) { return K<SD>::show(a) == K<SD>::show(b); }
inline bool operator==(const SF &a, const SF &b) { return K<SF>::show(a) == K<SF>::show(b); }
inline bool operator==(const SM &a, const SM &b) { return K<SM>::show(a) == K<SM>::show(b); }
inline bool operator==(const Big &a, const Big &b) { return memcmp(a.a, b.a, 200) == 0; }
inline bool operator==(const Al &a, const Al &b) { return K<Al>::show(a) == K<Al>::show(b); }
inline bool operator==(const NT &a, const NT &b) { return a.s == b.s && a.v == b.v; }
inline bool operator==(const ND &a, const ND &b) { return a.v == b.v; }

template<class T> struct Naked { typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type type; };
template<class T> typename Naked<T>::type make(int n) { return K<typename Naked<T>::type>::make(n); }
template<class T> std::string show(const T &v) { return K<typename Naked<T>::type>::show(v); }
template<class T> std::string want(int n) { return show(make<T>(n)); }   // what the n-th value looks like
inline std::string addr(const volatile void *p) { return str((const void *) p); }

// ---- checking and the main program ----
struct Fail { std::string text; };
inline void eq(const std::string &what, const std::string &got, const std::string &want) { if (got != want) throw Fail{what + ": got [" + got + "] expected [" + want + "]"}; }
inline void ok(const std::string &what, bool b) { if (!b) throw Fail{what}; }
inline void same(const std::string &what, const volatile void *got, const volatile void *want) { eq(what, addr(got), addr(want)); }

struct Boom { int n; std::string s; explicit Boom(int v) : n(v), s(K<std::string>::make(v)) {} };

// text of a call: its result, or how it failed
template<class F> std::string outcome(F f) {
    try { return f(); }
    catch (const UnexpectedMethodCallException &) { return "unexpected"; }
    catch (const SequenceVerificationException &) { return "verification failed"; }
    catch (const NoMoreInvocationsVerificationException &) { return "no more failed"; }
    catch (Boom &b) {   // what becomes of a caught exception does not concern the next one
        std::string t = b.s == K<std::string>::make(b.n) ? "Boom " + str(b.n) : "damaged Boom";
        b.n += 1000; b.s.clear();
        return t;
    }
    catch (const Fail &) { throw; }
    catch (const std::exception &e) {
        std::string t = e.what(), p = "an error with a text that does not fit into a small buffer ";
        return t.compare(0, p.size(), p) == 0 ? "Err " + t.substr(p.size()) : "exception " + t;
    }
}

// events seen by listeners
struct Events : EventHandler {
    std::vector<std::string> list;
    void handle(const UnexpectedMethodCallEvent &e) override {
        list.push_back(std::string(e.getUnexpectedType() == UnexpectedType::Unmocked ? "unmocked " : "unmatched ") + e.getInvocation().format());
    }
    void handle(const SequenceVerificationEvent &) override { list.push_back("sequence"); }
    void handle(const NoMoreInvocationsVerificationEvent &) override { list.push_back("no more"); }
    std::string take() { std::string s; for (auto &x : list) s += x + ";"; list.clear(); return s; }
};
struct Listening {
    Events e;
    Listening() { Fakeit.addEventHandler(e); }
    ~Listening() { Fakeit.clearEventHandlers(); }
};

// uses of __COUNTER__ by others
#define GAP1 __COUNTER__,
#define GAP8 GAP1 GAP1 GAP1 GAP1 GAP1 GAP1 GAP1 GAP1
#define GAP64 GAP8 GAP8 GAP8 GAP8 GAP8 GAP8 GAP8 GAP8

typedef void (*CaseFn)();
// one child process per case: exit status 0 ok, 1 failed; anything else is a crash
inline int runCases(const std::vector<CaseFn> &cases) {
    int bad = 0;
    for (size_t i = 0; i < cases.size(); i++) {
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            alarm(60);
            int rc = 0;
            try { cases[i](); }
            catch (const Fail &f) { printf("CASE %d FAIL %s\n", (int) i, f.text.c_str()); rc = 1; }
            catch (const std::exception &e) { printf("CASE %d FAIL uncaught exception %s\n", (int) i, e.what()); rc = 1; }
            catch (...) { printf("CASE %d FAIL uncaught exception\n", (int) i); rc = 1; }
            fflush(stdout);
            _exit(rc);
        }
        int st = 0;
        while (waitpid(p, &st, 0) < 0) {}
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { printf("CASE %d OK\n", (int) i); continue; }
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 1)) printf("CASE %d FAIL crashed (%s %d)\n", (int) i, WIFSIGNALED(st) ? "signal" : "exit status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
        bad++;
    }
    fflush(stdout);
    return bad ? 1 : 0;
}

}  // namespace kinds
using namespace kinds;
