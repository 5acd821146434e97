// C19: mocks, and methods of one mock, do not influence each other. Metamorphic: the operations of one
// mock (or one method) give the same results alone as interleaved with all others.
#include "mini.hpp"
#include <array>

struct Op {
    int slot;
    char kind;   // s stub, f fake, c call, v verify, w verify with another mock in view, h history, u unverified, r reset, k clear, n destroy and create again, p spy
    int method; bool hasCond; Cond cond; std::vector<Act> acts; int x; bool statement; int other;
    std::string text() const {
        std::string k = hasCond ? cat("(", cond.text(), ")") : std::string();
        switch (kind) {
            case 's': return cat("When(", methodName[method], k, ")", actsText(acts));
            case 'f': return cat("Fake(", methodName[method], ")");
            case 'c': return cat("call ", methodName[method], "(", x, ")");
            case 'v': return cat("Verify(", methodName[method], k, ").Exactly(", x, ")");
            case 'w': return cat("Using(this, m", other, ").Verify(", methodName[method], ").Exactly(", x, ")");
            case 'h': return "list calls";
            case 'u': return "list unverified calls";
            case 'r': return "Reset()";
            case 'k': return "ClearInvocationHistory()";
            case 'n': return "destroy and create again";
        }
        return cat("Spy(", methodName[method], ")");
    }
};

struct Slot {
    virtual ~Slot() {}
    virtual std::string run(const Op &o, Slot *other) = 0;
    virtual const ActualInvocationsSource &source() = 0;
};
template<class C> struct SlotOf : Slot {
    std::unique_ptr<C> object;   // spied object
    bool spy;
    std::unique_ptr<Mock<C>> mockp;
    explicit SlotOf(bool isSpy) : spy(isSpy) { create(); }
    void create();
    const ActualInvocationsSource &source() override { return *mockp; }
    std::string run(const Op &o, Slot *other) override {
        if (o.kind == 'n') { mockp.reset(); create(); return "created"; }
        Mock<C> &mock = *mockp;
        MiniReal<C> real(mock);
        switch (o.kind) {
            case 's': real.stub(o.method, o.hasCond, o.cond, o.acts); return "";
            case 'f': real.fake(o.method); return "";
            case 'p': real.spy(o.method); return "";
            case 'c': return real.call(o.method, o.x);
            case 'v': return real.count(o.method, o.hasCond, o.cond, o.x, o.statement);
            case 'w': return real.countAmong(o.method, o.x, other ? &other->source() : nullptr);
            case 'h': return real.history(o.method);
            case 'u': return real.unverified();
            case 'r': mock.Reset(); return "";
            case 'k': mock.ClearInvocationHistory(); return "";
        }
        return "?";
    }
};
template<> void SlotOf<Pure>::create() { mockp.reset(new Mock<Pure>()); }
struct Other {   // another layout with the same method names
    virtual int g(int) const = 0;
    virtual std::string s(int, int) = 0;
    virtual void v(int) = 0;
    virtual int f(int) = 0;
    long data[3];
};
template<> void SlotOf<Other>::create() { mockp.reset(new Mock<Other>()); }
template<> void SlotOf<Solid>::create() {
    if (!spy) { mockp.reset(new Mock<Solid>()); return; }
    if (!object) object.reset(new Solid());
    mockp.reset(new Mock<Solid>(*object));
}

static Slot *makeSlot(int type) {
    switch (type) {
        case 0: return new SlotOf<Pure>(false);
        case 1: return new SlotOf<Other>(false);
        case 2: return new SlotOf<Solid>(false);
    }
    return new SlotOf<Solid>(true);
}
static const char *const typeName[] = {"Mock<Pure>", "Mock<Other>", "Mock<Solid>", "spy on Solid"};

static void oneCase(pbt::Ctx &c) {
    MiniListen listen;
    int slots = c.range(2, 4);
    std::vector<int> types;
    for (int i = 0; i < slots; i++) types.push_back(c.range(0, 3));
    bool perMethod = c.chance(1, 4);
    if (perMethod) { slots = 1; types.resize(1); }
    std::vector<std::array<bool, NM>> bound((size_t) slots);
    for (auto &b : bound) b.fill(false);
    std::vector<Op> ops;
    int next = 1;
    while (ops.size() < 60 && c.more(24)) {
        pbt::Span sp(c);
        Op o; o.slot = c.range(0, slots - 1); o.hasCond = false; o.cond.kind = 0; o.cond.v = 0; o.x = 0; o.statement = false;
        o.method = c.range(0, NM - 1);
        bool spy = types[(size_t) o.slot] == 3;
        auto &b = bound[(size_t) o.slot];
        static const char kinds[] = {'s', 'c', 'v', 'h', 'u', 'r', 'k', 'n', 'f', 'p', 'w'};
        o.kind = kinds[c.weighted({6, 12, 5, 2, 2, 1, 1, 1, 1, 2, 4})];
        if (o.kind == 'p' && !spy) o.kind = 'f';
        if (perMethod && (o.kind == 'h' || o.kind == 'u')) o.kind = 'c';
        if (o.kind == 'h') { o.method = -1; for (int i = 0; i < NM; i++) if (b[(size_t) i]) o.method = i; if (o.method < 0) continue; }
        o.other = o.kind == 'w' ? c.range(0, slots - 1) : 0;
        if ((o.kind == 'v' || o.kind == 'w') && spy && !b[(size_t) o.method]) continue;
        if (o.kind == 's' || o.kind == 'v') { o.hasCond = c.coin(); if (o.hasCond) o.cond = normSmall(genCond(c, 0, 2)); }
        if (o.kind == 's') o.acts = genActs(c, o.method, next);
        if (o.kind == 'c') o.x = c.range(0, 2);
        if (o.kind == 'v') { o.x = c.range(0, 3); o.statement = c.coin(); }
        if (o.kind == 'w') o.x = c.range(0, 3);
        if (o.kind == 'w' || o.kind == 's' || o.kind == 'f' || o.kind == 'p' || o.kind == 'v') b[(size_t) o.method] = true;
        if (o.kind == 'r' || o.kind == 'n') b.fill(false);
        ops.push_back(o);
        c.log(cat("m", o.slot, " (", typeName[types[(size_t) o.slot]], "): ", o.text()));
    }
    // spied Solid methods share the object's state: a stubbed f changes what g returns. Compare spies only per mock.
    if (perMethod && types[0] == 3) return;
    std::vector<std::string> together(ops.size());
    {
        std::vector<std::unique_ptr<Slot>> s;
        for (int t : types) s.emplace_back(makeSlot(t));
        for (size_t i = 0; i < ops.size(); i++) together[i] = s[(size_t) ops[i].slot]->run(ops[i], s[(size_t) ops[i].other].get());
    }
    int groups = perMethod ? NM : slots, busy = 0;
    for (int g = 0; g < groups; g++) {
        std::unique_ptr<Slot> s(makeSlot(types[(size_t) (perMethod ? 0 : g)]));
        int n = 0;
        for (size_t i = 0; i < ops.size(); i++) {
            const Op &o = ops[i];
            bool common = o.kind == 'r' || o.kind == 'k' || o.kind == 'n';
            if (perMethod ? (!common && o.method != g) : o.slot != g) continue;
            std::string alone = s->run(o, nullptr);
            c.eq(together[i], alone, cat("operation ", i, " [", o.text(), "] with the others vs alone"));
            n++;
        }
        if (n >= 2) busy++;
    }
    c.label(perMethod ? "methods of one mock" : cat(slots, " mocks"));
    c.nontrivialIf(busy >= 2);
}

PBT_MAIN("C19", oneCase)
