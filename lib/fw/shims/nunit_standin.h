// Stand-in for NUnit under C++/CLI: only what an adapter needs.
#pragma once
#include <string>
#define gcnew new
struct String { std::string text; explicit String(const char *t) : text(t) {} };
namespace NUnit { namespace Framework {
struct AssertionException { std::string message; };
struct Assert {
    [[noreturn]] static void Fail(String *s) { AssertionException e{s->text}; delete s; throw e; }
};
}}
