// Stand-in for mettle: only what an adapter needs.
#pragma once
#include <stdexcept>
#include <string>
namespace mettle {
class expectation_error : public std::runtime_error { public: using std::runtime_error::runtime_error; };
}
