// C12: Reset gives back a fresh mock (or the original object), clearing the history forgets calls only.
#include "mini.hpp"

static int liveMembers = 0;
struct Tracked {
    int v;
    Tracked() : v(0) {}
    Tracked(int x, int y) : v(x * 10 + y) { liveMembers++; }
    ~Tracked() { liveMembers--; }
};
struct WithData : Pure {
    int number; char text[24]; Tracked *none; Tracked member; std::string str; double real;
};

struct Data { int number; std::string text; double real; bool member; int memberV; bool str; std::string strV; };

static void mockCase(pbt::Ctx &c) {
    MiniListen listen;
    liveMembers = 0;
    {
    Mock<WithData> mock;
    MiniReal<WithData> real(mock);
    MiniModel model;
    Data d = Data();
    std::deque<Act> dtorActs; bool dtorStubbed = false; int dtorCalls = 0;
    int next = 1, ops = 0, resets = 0, clears = 0, calls = 0;
    bool useful = false;
    int maxOps = c.chance(1, 20) ? 300 : 40;
    while (ops < maxOps && c.more((uint32_t) maxOps / 2)) {
        pbt::Span sp(c);
        ops++;
        switch (c.weighted({6, 10, 4, 2, 2, 2, 1, 1, 1, 2})) {
            case 0: {
                int m = c.range(0, NM - 1);
                Cond k; k.kind = 0; k.v = 0;
                bool has = c.coin();
                if (has) k = normSmall(genCond(c, 0, 3));
                std::vector<Act> acts = genActs(c, m, next);
                c.log(cat("When(", methodName[m], has ? cat("(", k.text(), ")") : std::string(), ")", actsText(acts)));
                real.stub(m, has, k, acts);
                model.stub(m, has, k, acts);
                break;
            }
            case 1: {
                int m = c.range(0, NM - 1), x = c.range(0, 3);
                std::string got = real.call(m, x), want = model.call(m, x);
                c.log(cat("call ", methodName[m], "(", x, ") -> ", got));
                c.eq(got, want, cat("call of ", methodName[m]));
                calls++;
                break;
            }
            case 2: {
                int m = c.range(0, NM - 1);
                Cond k; k.kind = 0; k.v = 0;
                bool has = c.coin();
                if (has) k = normSmall(genCond(c, 0, 3));
                int n = model.count(m, has, k), ask = n + (c.chance(1, 3) ? 1 : 0);
                std::string got = real.count(m, has, k, ask, c.coin());
                model.bound[m] = true;
                c.log(cat("Verify(", methodName[m], has ? cat("(", k.text(), ")") : std::string(), ").Exactly(", ask, ") -> ", got));
                c.eq(got, ask == n ? "pass" : "fail", "verification");
                if (ask == n) model.verify(m, has, k);
                break;
            }
            case 3:
                mock.Reset();
                model.clearAll();
                d = Data();
                dtorStubbed = false; dtorActs.clear(); dtorCalls = 0;
                c.log("Reset()");
                resets++;
                c.eq(liveMembers, 0, "stubbed data members alive after Reset");
                if (calls) useful = true;
                break;
            case 4:
                mock.ClearInvocationHistory();
                model.calls.clear();
                dtorCalls = 0;
                c.log("ClearInvocationHistory()");
                clears++;
                if (calls) useful = true;
                break;
            case 5: {   // write plain data members
                int v = next++;
                mock.get().number = d.number = v;
                snprintf(mock.get().text, sizeof mock.get().text, "txt%d", v);
                d.text = cat("txt", v);
                mock.get().real = d.real = v * 0.5;
                c.log(cat("write data ", v));
                break;
            }
            case 6:
                if (!d.member) {
                    int v = next++ % 100;
                    mock.Stub(&WithData::member, v, 5);
                    d.member = true; d.memberV = v * 10 + 5;
                    c.log(cat("Stub(&member, ", v, ", 5)"));
                }
                break;
            case 7:
                if (!d.str) {
                    d.strV = cat("a-string-long-enough-for-the-heap-", next++);
                    mock.Stub(&WithData::str, d.strV);
                    d.str = true;
                    c.log("Stub(&str, text)");
                }
                break;
            case 8: {   // destructor script
                dtorActs.clear();
                dtorStubbed = true;
                if (c.coin()) { Fake(Dtor(mock)); dtorActs.push_back(Act{'D', 0, -1}); c.log("Fake(Dtor)"); }
                else {
                    int a = next++, b = c.range(1, 3);
                    When(Dtor(mock)).Throw(UserError(a)).Return(miniTimes(b));
                    dtorActs.push_back(Act{'T', a, 1}); dtorActs.push_back(Act{'D', 0, b});
                    c.log(cat("When(Dtor).Throw(", a, ").Return(", b, "_Times)"));
                }
                break;
            }
            case 9: {   // delete: only when the outcome cannot leave an exception in a noexcept destructor frame
                std::string want;
                if (!dtorStubbed) want = "deleted";
                else {
                    if (dtorActs.empty() || dtorActs.front().kind == 'T') break;   // would throw out of a destructor
                    if (dtorActs.front().n > 0 && --dtorActs.front().n == 0) dtorActs.pop_front();
                    dtorCalls++;
                    want = "deleted";
                }
                delete &mock.get();
                c.log("delete object");
                if (dtorStubbed) c.check(Verify(Dtor(mock)).Exactly(dtorCalls), cat("Verify(Dtor).Exactly(", dtorCalls, ")"));
                break;
            }
        }
        c.eq(mock.get().number, d.number, "data member number");
        c.eq(std::string(mock.get().text), d.text, "data member text");
        c.eq(mock.get().real, d.real, "data member real");
        if (d.member) c.eq(mock.get().member.v, d.memberV, "stubbed data member");
        else c.eq(mock.get().member.v, 0, "unstubbed data member");
        if (d.str) c.eq(mock.get().str, d.strV, "stubbed string member");
        c.eq(liveMembers, d.member ? 1 : 0, "live stubbed members");
    }
    int b = model.someBound();
    if (b >= 0 && !dtorCalls) c.eq(real.history(b), model.history(), "recorded calls");
    if (!dtorCalls) c.eq(real.unverified(), model.unverified(), "unverified calls");
    c.label(cat(resets ? "resets" : "no reset", clears ? ", clears" : ", no clear"));
    c.nontrivialIf(useful);
    }
    c.eq(liveMembers, 0, "stubbed data members alive after the mock");
}

static void spyCase(pbt::Ctx &c) {
    MiniListen listen;
    Solid object, twin;
    std::unique_ptr<Mock<Solid>> mockp(new Mock<Solid>(object));
    MiniModel model;
    int next = 1, ops = 0, calls = 0;
    bool useful = false;
    auto modelCall = [&](int m, int x) -> std::string {
        if (!mockp || !model.bound[m]) return MiniReal<Solid>::callOn(&twin, m, x);
        Act a; std::string why;
        if (!model.begin(m, x, a, why)) return why;
        if (a.kind == 'P') return MiniReal<Solid>::callOn(&twin, m, x);
        return MiniModel::result(m, a, x);
    };
    while (ops < 60 && c.more(20)) {
        pbt::Span sp(c);
        ops++;
        switch (c.weighted({4, 10, 3, 3, 2, 3, 1})) {
            case 0: {
                if (!mockp) break;
                int m = c.range(0, NM - 1);
                Mock<Solid> &mock = *mockp;
                std::vector<Act> acts = genActs(c, m, next);
                Cond k; k.kind = 0; k.v = 0;
                MiniReal<Solid>(mock).stub(m, false, k, acts);
                model.stub(m, false, k, acts);
                c.log(cat("When(", methodName[m], ")", actsText(acts)));
                break;
            }
            case 1: {
                int m = c.range(0, NM - 1), x = c.range(0, 3);
                std::string got = MiniReal<Solid>::callOn(&object, m, x), want = modelCall(m, x);
                c.log(cat("call ", methodName[m], "(", x, ") -> ", got));
                c.eq(got, want, cat("call of ", methodName[m]));
                calls++;
                break;
            }
            case 2: {
                if (!mockp) break;
                int m = c.range(0, NM - 1);
                MiniReal<Solid>(*mockp).spy(m);
                Cond k; k.kind = 0; k.v = 0;
                model.stub(m, false, k, std::vector<Act>(1, Act{'P', 0, -1}));
                c.log(cat("Spy(", methodName[m], ")"));
                break;
            }
            case 3:
                if (!mockp) break;
                mockp->Reset();
                model.clearAll();
                c.log("Reset()");
                if (calls) useful = true;
                break;
            case 4:
                if (!mockp) break;
                mockp->ClearInvocationHistory();
                model.calls.clear();
                c.log("ClearInvocationHistory()");
                if (calls) useful = true;
                break;
            case 5: {
                if (!mockp) break;
                int m = c.range(0, NM - 1);
                if (!model.bound[m]) break;
                Cond k; k.kind = 0; k.v = 0;
                int n = model.count(m, false, k);
                c.log(cat("Verify(", methodName[m], ").Exactly(", n, ")"));
                c.eq(MiniReal<Solid>(*mockp).count(m, false, k, n, c.coin()), "pass", "verification");
                model.verify(m, false, k);
                break;
            }
            case 6:
                if (mockp) { mockp.reset(); model.clearAll(); c.log("destroy the mock"); }
                else { mockp.reset(new Mock<Solid>(object)); c.log("spy on the object again"); }
                break;
        }
        c.eq(object.state, twin.state, "state of the spied object");
        c.eq(object.extra, twin.extra, "untouched data of the spied object");
    }
    if (mockp) {
        MiniReal<Solid> real(*mockp);
        int b = model.someBound();
        if (b >= 0) c.eq(real.history(b), model.history(), "recorded calls");
        c.eq(real.unverified(), model.unverified(), "unverified calls");
    }
    c.label("spy");
    c.nontrivialIf(useful);
}

static void oneCase(pbt::Ctx &c) {
    if (c.chance(1, 3)) spyCase(c); else mockCase(c);
}

PBT_MAIN("C12", oneCase)
