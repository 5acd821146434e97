// Stand-in for CUTE: only what an adapter needs.
#pragma once
#include <string>
namespace cute {
struct test_failure {
    std::string reason, filename;
    int lineno;
    test_failure(std::string const &r, char const *f, int line) : reason(r), filename(f), lineno(line) {}
    char const *what() const { return reason.c_str(); }
};
}
