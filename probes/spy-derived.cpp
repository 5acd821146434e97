// Exit 0: an object spied on through a base class keeps the virtual methods its own class adds.
#include "fakeit.hpp"
#include <cstdlib>
#include <csignal>
using namespace fakeit;
struct Base { virtual int f(int x) { return x + 1; } virtual ~Base() {} };
struct Derived : Base { virtual int g1(int x) { return x + 2; } virtual int g2(int x) { return x + 3; } };
template<class T> __attribute__((noinline)) T &hide(T &x) { T *p = &x; asm volatile("" : "+r"(p) : : "memory"); return *p; }
static void present(int) { _Exit(10); }
int main() {
    signal(SIGSEGV, present); signal(SIGILL, present); signal(SIGBUS, present);
    Derived d;
    Mock<Base> spy(d);
    Spy(Method(spy, f));
    return hide(d).f(1) == 2 && hide(d).g1(1) == 3 && hide(d).g2(1) == 4 ? 0 : 10;
}
