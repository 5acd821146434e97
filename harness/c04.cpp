// C04: a verification passes exactly when the number of pattern occurrences satisfies the request.
#include "seqworld.hpp"

static void oneCase(pbt::Ctx &c) {
    Mocks w;
    std::vector<Call> hist;
    GenOpts o;
    o.mocks = c.range(1, 3); o.lo = 0; o.hi = c.range(0, 2); o.maxDepth = c.range(0, 3);
    int letters = c.range(1, 3);   // how many different methods are called
    std::vector<std::pair<int, int>> alphabet;
    for (int i = 0; i < letters; i++) alphabet.push_back(std::make_pair(c.range(0, o.mocks - 1), c.range(0, 1)));
    int ops = 0;
    while (ops < 40 && c.more(14)) {
        pbt::Span sp(c);
        ops++;
        uint32_t what = c.weighted({7, 2, 3});
        if (what <= 1) {
            auto l = alphabet[c.draw((uint32_t) alphabet.size())];
            int x = c.range(o.lo, o.hi), rep = what == 1 ? (c.chance(1, 60) ? c.pick(std::vector<int>{20, 127, 129, 257, 300}) : c.range(2, 5)) : 1;
            if (rep > 5) c.label("more than 5 equal calls");
            for (int i = 0; i < rep; i++) {
                w.call(l.first, l.second, x);
                hist.push_back(Call{l.first, l.second, x, false, (int) hist.size()});
                c.log(cat("call ", letterName[l.first][l.second], "(", x, ")"));
            }
            continue;
        }
        SeqPool pool;
        std::vector<PatternM> ps = genPatterns(c, pool, w, o, hist);
        std::vector<Call> seen;
        for (auto &k : hist) if (involved(ps, k.mock)) seen.push_back(k);
        MatchResult m = countMatches(ps, seen);
        Request r = genRequest(c, m.count);
        int delivery = c.range(0, 2);
        std::string want = r.accepts(m.count) ? "pass" : "fail";
        std::string got = verifyPlain(ps, r, delivery);
        c.log(cat("Verify(", patternText(ps), ")", r.text(), " delivery ", delivery, " -> ", got, " (occurrences ", m.count, ")"));
        c.label(cat(want, m.count == 0 ? ", no occurrence" : m.count == 1 ? ", 1 occurrence" : ", several occurrences"));
        size_t steps = 0;
        for (auto &p : ps) steps += p.flat.size();
        c.label(steps == 1 ? "single step" : ps.size() > 1 ? "comma pattern" : "joined or repeated pattern");
        c.nontrivialIf(!hist.empty() && (steps >= 2 || m.count >= 1));
        c.eq(got, want, "verdict");
    }
}

PBT_MAIN("C04", oneCase)
