// Stand-in for the Visual Studio test framework: only what an adapter needs.
#pragma once
#include <string>
namespace Microsoft { namespace VisualStudio { namespace CppUnitTestFramework {
struct AssertFailed { std::wstring message; };
struct __LineInfo {
    const wchar_t *pszFileName; const char *pszFuncName; int line;
    __LineInfo(const wchar_t *file, const char *func, int l) : pszFileName(file), pszFuncName(func), line(l) {}
};
struct Assert {
    [[noreturn]] static void Fail(const wchar_t *message = nullptr, const __LineInfo * = nullptr) { throw AssertFailed{message ? message : L""}; }
};
}}}
