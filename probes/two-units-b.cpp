#include "two-units.hpp"
using namespace fakeit;
void stubG(Mock<Two> &mock) { When(Method(mock, g)).AlwaysReturn(2); }
