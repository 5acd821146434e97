// C21: actions may use mocks re-entrantly.
#include "mini.hpp"

struct World {
    pbt::Ctx &c;
    Mock<Pure> ma, mb;
    MiniReal<Pure> real[2];
    MiniModel model[2];
    int next, depth, maxDepth, budget, deepest;
    std::vector<int> running;   // ids of the callables being executed
    bool deepCall;
    explicit World(pbt::Ctx &ctx) : c(ctx), real{MiniReal<Pure>(ma), MiniReal<Pure>(mb)}, next(1), depth(0), maxDepth(4), budget(60), deepest(0), deepCall(false) {}
    std::string pad() { return std::string((size_t) depth * 2, ' '); }
    void call(int m, int method, int x) {
        Act a; std::string why, want;
        bool ok = model[m].begin(method, x, a, why);
        c.log(cat(pad(), "call m", m, ".", methodName[method], "(", x, ") {"));
        bool callable = ok && a.kind == 'F';
        endsWith.clear();
        if (callable) running.push_back(a.v);
        size_t level = running.size();
        depth++;
        std::string got = real[m].call(method, x);
        depth--;
        if (callable) {
            if (running.size() != level - 1) c.fail(cat("callable ", a.v, " was not run by the call"));
        }
        want = !ok ? why : MiniModel::result(method, a, x);
        if (callable && !endsWith.empty()) want = endsWith;
        endsWith.clear();
        c.log(cat(pad(), "} -> ", got));
        c.eq(got, want, cat("call of ", methodName[method]));
    }
    std::string endsWith;   // how the last callable ended, if by throwing
    void onAction(int id, int x) {
        (void) x;
        if (running.empty() || running.back() != id) c.fail(cat("callable ", id, " run unexpectedly"));
        if (depth > deepest) deepest = depth;
        int n = 0;
        while (n < 3 && budget > 0 && depth <= maxDepth && c.more(2)) { n++; op(); }
        std::string ends;
        int code = 0;
        if (c.chance(1, 5)) { code = next++; ends = cat("throw UserError ", code); }
        running.pop_back();
        endsWith = ends;
        if (!ends.empty()) throw UserError(code);
    }
    void op() {
        pbt::Span sp(c);
        budget--;
        int m = c.range(0, 1), method = c.range(0, NM - 1), x = c.range(0, 2);
        Cond k; k.kind = 0; k.v = 0;
        bool has = false;
        switch (c.weighted({8, 4, 2, 1, 1, 1})) {
            case 0: call(m, method, x); break;
            case 1: {
                has = c.coin();
                if (has) k = normSmall(genCond(c, 0, 2));
                std::vector<Act> acts = genActs(c, method, next, "FFFFRTD");
                c.log(cat(pad(), "When(m", m, ".", methodName[method], has ? cat("(", k.text(), ")") : std::string(), ")", actsText(acts)));
                real[m].stub(method, has, k, acts);
                model[m].stub(method, has, k, acts);
                break;
            }
            case 2: {
                has = c.coin();
                if (has) k = normSmall(genCond(c, 0, 2));
                int n = model[m].count(method, has, k), ask = n + (c.chance(1, 3) ? 1 : 0);
                bool statement = c.coin();
                std::string got = real[m].count(method, has, k, ask, statement);
                model[m].bound[method] = true;
                c.log(cat(pad(), "Verify(m", m, ".", methodName[method], has ? cat("(", k.text(), ")") : std::string(), ").Exactly(", ask, ") -> ", got));
                c.eq(got, ask == n ? "pass" : "fail", "verification inside an action");
                if (ask == n) model[m].verify(method, has, k);
                break;
            }
            case 3:
                if (m == 0) ma.ClearInvocationHistory(); else mb.ClearInvocationHistory();
                model[m].calls.clear();
                c.log(cat(pad(), "m", m, ".ClearInvocationHistory()"));
                break;
            case 4: {
                int b = model[m].someBound();
                if (b < 0) break;
                c.log(cat(pad(), "list the calls of m", m));
                c.eq(real[m].history(b), model[m].history(), "recorded calls");
                break;
            }
            case 5:
                c.log(cat(pad(), "list the unverified calls of m", m));
                c.eq(real[m].unverified(), model[m].unverified(), "unverified calls");
                break;
        }
    }
};

static void oneCase(pbt::Ctx &c) {
    MiniListen listen;
    World w(c);
    struct Unhook { ~Unhook() { actionHook() = nullptr; } } unhook;
    actionHook() = [&w](int id, int x) { w.onAction(id, x); };
    for (int m = 0; m < 2; m++) for (int method = 0; method < NM; method++) if (c.chance(3, 5)) {   // something to nest in
        Cond k; k.kind = 0; k.v = 0;
        std::vector<Act> acts = genActs(c, method, w.next, "F");
        c.log(cat("When(m", m, ".", methodName[method], ")", actsText(acts)));
        w.real[m].stub(method, false, k, acts);
        w.model[m].stub(method, false, k, acts);
    }
    int n = 0;
    while (n < 40 && w.budget > 0 && c.more(14)) { n++; w.op(); }
    for (int m = 0; m < 2; m++) {
        int b = w.model[m].someBound();
        if (b >= 0) c.eq(w.real[m].history(b), w.model[m].history(), "recorded calls at the end");
        c.eq(w.real[m].unverified(), w.model[m].unverified(), "unverified calls at the end");
    }
    c.label(cat("depth ", w.deepest));
    c.nontrivialIf(w.deepest >= 2);
}

PBT_MAIN("C21", oneCase)
