#include "fakeit.hpp"
struct Two { virtual int f(int) = 0; virtual int g(int) = 0; };
void stubG(fakeit::Mock<Two> &);
