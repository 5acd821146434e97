// Exit 0: one mock can be stubbed from two translation units.
#include "two-units.hpp"
using namespace fakeit;
int main() {
    Mock<Two> mock;
    When(Method(mock, f)).AlwaysReturn(1);
    stubG(mock);
    try { return mock.get().f(0) == 1 && mock.get().g(0) == 2 ? 0 : 10; } catch (UnexpectedMethodCallException &) { return 10; }
}
