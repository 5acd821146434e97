// Shared by the two translation units of the C22 harness.
#pragma once
#include <string>
#include <vector>
using namespace fakeit;

struct Api {
    virtual int f(int) = 0;
    virtual void g(const std::string &) = 0;
    virtual ~Api() {}
};

static const std::string texts[] = {"", "plain", "100%", "%s%n%d", "{0} {}", "two\nlines", "quote \" and \\", "tab\tand 'x'", "a rather long text, repeated. a rather long text, repeated. a rather long text, repeated. a rather long text, repeated."};
enum { NT = sizeof texts / sizeof texts[0] };

struct Call { int mock; bool isF; int x; bool verified; };

struct World {
    Mock<Api> mocks[2];
    std::vector<Call> calls;
    bool stubF[2], stubG[2];
    int onlyF[2];      // f accepts only this argument, -1: any
    World() { for (int i = 0; i < 2; i++) { stubF[i] = stubG[i] = false; onlyF[i] = -1; } }
};

struct Site { const char *file; long line; };

#define HERE (site.file = __FILE__, site.line = __LINE__)
#define STATEMENTS(NAME) \
    void NAME(World &w, int k, int what, int arg, int how, int n, Site &site) { \
        Mock<Api> &mock = w.mocks[k]; \
        switch (what) { \
            case 0: HERE; if (how == 3) Verify(Method(mock, f)).Exactly(n); else if (how == 0) Verify(Method(mock, f)).Exactly(n); else if (how == 1) Verify(Method(mock, f)).AtLeast(n); else Verify(Method(mock, f)).Never(); break; \
            case 1: HERE; if (how == 0) Verify(Method(mock, f).Using(arg)).Exactly(n); else if (how == 1) Verify(Method(mock, f).Using(arg)).AtLeast(n); else if (how == 2) Verify(Method(mock, f).Using(arg)).Never(); else Verify(Method(mock, f).Using(arg)).Exactly(n); break; \
            case 2: HERE; if (how == 0) Verify(Method(mock, g).Using(texts[arg])).Exactly(n); else if (how == 1) Verify(Method(mock, g).Using(texts[arg])).AtLeast(n); else if (how == 2) Verify(Method(mock, g).Using(texts[arg])).Never(); else Verify(Method(mock, g).Using(texts[arg])).Exactly(n); break; \
            case 3: HERE; VerifyNoOtherInvocations(mock); break; \
            case 4: HERE; VerifyNoOtherInvocations(w.mocks[0], w.mocks[1]); break; \
            case 5: { bool yes = Verify(Method(mock, f).Using(arg)).Exactly(n); site.line = yes; break; } \
        } \
    }

// in the second translation unit
void otherUnit(World &w, int k, int what, int arg, int how, int n, Site &site);
void otherCall(Api &api, bool isF, int x);
