// Exit 0: naming an untouched method of a spied object in a verification leaves the method alone.
#include "fakeit.hpp"
using namespace fakeit;
struct Obj { virtual int f(int x) { return x + 1; } virtual ~Obj() {} };
template<class T> __attribute__((noinline)) T &hide(T &x) { T *p = &x; asm volatile("" : "+r"(p) : : "memory"); return *p; }
int main() {
    Obj o;
    Mock<Obj> spy(o);
    Verify(Method(spy, f)).Never();
    try { return hide(o).f(1) == 2 ? 0 : 10; } catch (UnexpectedMethodCallException &) { return 10; }
}
