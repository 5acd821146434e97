// Choice-sequence property-based testing: generation, execution, replay and shrinking are all a
// function of one vector of integers. Header-only, C++11, no dependency on the code under test.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define PBT_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif
extern "C" {
const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1"; }
const char *__ubsan_default_options() { return "print_stacktrace=1:exitcode=77"; }
}

namespace pbt {

enum { MaxChoices = 1 << 16, MaxText = 1 << 16, MaxSpans = 1 << 13 };

// Lives in memory shared with the worker so that a crashing case is still known to the parent.
struct Shared {
    uint32_t nChoices;
    uint32_t nSpans;
    uint32_t logLen;
    uint32_t failed;     // the running case reported a failure
    uint64_t caseIndex;
    uint64_t casesDone;
    uint32_t choices[MaxChoices];
    uint32_t spans[MaxSpans][2];
    char log[MaxText];
    char message[MaxText];
};

struct Failure { std::string msg; };
struct Discard {};   // replay vector ran into a meaningless state; never a failure

inline uint64_t splitmix(uint64_t &s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

class Ctx {
    Shared *_sh;
    const std::vector<uint32_t> *_replay;
    size_t _pos;
    uint64_t _rng;
    bool _nontrivial;
    std::vector<std::string> _labels;
    std::vector<size_t> _open;
public:
    Ctx(Shared *sh, const std::vector<uint32_t> *replay, uint64_t seed) : _sh(sh), _replay(replay), _pos(0), _rng(seed), _nontrivial(false) {
        sh->nChoices = 0; sh->nSpans = 0; sh->logLen = 0; sh->log[0] = 0; sh->failed = 0; sh->message[0] = 0;
    }
    // uniform in [0,n); 0 is the simplest value
    uint32_t draw(uint32_t n) {
        if (n <= 1) return 0;
        uint32_t v;
        if (_replay) {
            v = _pos < _replay->size() ? (*_replay)[_pos] : 0;
            if (v >= n) v = v % n;
        } else {
            v = (uint32_t) ((splitmix(_rng) >> 16) % n);
        }
        _pos++;
        if (_sh->nChoices >= MaxChoices) throw Discard();
        _sh->choices[_sh->nChoices++] = v;
        return v;
    }
    int range(int lo, int hi) { return lo + (int) draw((uint32_t) (hi - lo + 1)); }
    bool coin() { return draw(2) == 1; }
    // true with probability num/den; shrinks to false
    bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; }
    // loop control: continues with an average of avg iterations; shrinks to stop
    bool more(uint32_t avg) { return draw(1000) >= 1000 / (avg + 1); }
    template<class T> const T &pick(const std::vector<T> &v) { return v[draw((uint32_t) v.size())]; }
    uint32_t weighted(std::initializer_list<uint32_t> w) {
        uint32_t sum = 0; for (auto x : w) sum += x;
        uint32_t r = draw(sum), i = 0;
        for (auto x : w) { if (r < x) return i; r -= x; i++; }
        return 0;
    }
    void open() { _open.push_back(_sh->nChoices); }
    void close() {
        size_t s = _open.back(); _open.pop_back();
        if (_sh->nSpans < MaxSpans) { _sh->spans[_sh->nSpans][0] = (uint32_t) s; _sh->spans[_sh->nSpans][1] = _sh->nChoices; _sh->nSpans++; }
    }
    void log(const std::string &s) {
        size_t n = s.size();
        if (_sh->logLen + n + 2 >= MaxText) return;
        memcpy(_sh->log + _sh->logLen, s.data(), n);
        _sh->logLen += (uint32_t) n;
        _sh->log[_sh->logLen++] = '\n';
        _sh->log[_sh->logLen] = 0;
    }
    void label(const std::string &s) { _labels.push_back(s); }
    void nontrivial() { _nontrivial = true; }
    void nontrivialIf(bool b) { if (b) _nontrivial = true; }
    bool isNontrivial() const { return _nontrivial; }
    const std::vector<std::string> &labels() const { return _labels; }
    void fail(const std::string &m) { throw Failure{m}; }
    template<class A, class B> void eq(const A &got, const B &want, const std::string &what) {
        if (!(got == want)) {
            std::ostringstream o;
            o << what << ": got [" << got << "] expected [" << want << "]";
            throw Failure{o.str()};
        }
    }
    void check(bool ok, const std::string &what) { if (!ok) throw Failure{what}; }
};

// RAII span: one generated operation
struct Span {
    Ctx &c;
    explicit Span(Ctx &ctx) : c(ctx) { c.open(); }
    ~Span() { c.close(); }
};

inline uint64_t fnv(const char *p, size_t n) {
    uint64_t h = 1469598103934665603ULL;
    for (size_t i = 0; i < n; i++) { h ^= (unsigned char) p[i]; h *= 1099511628211ULL; }
    return h;
}

typedef void (*CaseFn)(Ctx &);

struct Engine {
    const char *prop;
    CaseFn fn;
    Shared *sh;
    std::string errPath;

    void arm(int sec) { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = sec; setitimer(ITIMER_VIRTUAL, &t, nullptr); }

    // runs one case in this process; true if it failed
    bool runOne(const std::vector<uint32_t> *replay, uint64_t seed, bool &nontrivial, std::vector<std::string> *labels) {
        Ctx c(sh, replay, seed);
        nontrivial = false;
        try {
            fn(c);
        } catch (Failure &f) {
            sh->failed = 1;
            snprintf(sh->message, MaxText, "%s", f.msg.c_str());
            return true;
        } catch (Discard &) {
            return false;
        }
        nontrivial = c.isNontrivial();
        if (labels) *labels = c.labels();
        return false;
    }

    void redirect() {
        int fd = ::open(errPath.empty() ? "/dev/null" : errPath.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); ::close(fd); }
    }

    static std::string describeStatus(int st) {
        std::ostringstream o;
        if (WIFSIGNALED(st)) {
            int s = WTERMSIG(st);
            if (s == SIGVTALRM) o << "hang: a single case used more than its CPU limit";
            else o << "crash: signal " << s << " (" << strsignal(s) << ")";
        } else if (WEXITSTATUS(st) == 77) o << "crash: sanitizer report";
        else if (WEXITSTATUS(st) == 5) o << "exception escaped from the case";
        else o << "unexpected exit status " << WEXITSTATUS(st);
        return o.str();
    }

    // one case in a forked child: 0 pass, 1 fail (message in sh->message)
    int isolated(const std::vector<uint32_t> &choices) {
        fflush(nullptr);
        pid_t p = fork();
        if (p < 0) { perror("fork"); exit(2); }
        if (p == 0) {
            redirect();
            arm(10);
            bool nt;
            int rc = 0;
            try { rc = runOne(&choices, 0, nt, nullptr) ? 3 : 0; } catch (...) { rc = 5; }
            _exit(rc);
        }
        int st = 0;
        while (waitpid(p, &st, 0) < 0) {}
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return 1;
        std::string m = describeStatus(st);
        snprintf(sh->message, MaxText, "%s", m.c_str());
        return 1;
    }

    static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

    std::vector<uint32_t> current() { return std::vector<uint32_t>(sh->choices, sh->choices + sh->nChoices); }
    std::vector<std::pair<uint32_t, uint32_t>> currentSpans() {
        std::vector<std::pair<uint32_t, uint32_t>> r;
        for (uint32_t i = 0; i < sh->nSpans; i++) r.push_back(std::make_pair(sh->spans[i][0], sh->spans[i][1]));
        return r;
    }

    static bool better(const std::vector<uint32_t> &a, const std::vector<uint32_t> &b) {
        if (a.size() != b.size()) return a.size() < b.size();
        return a < b;
    }

    std::vector<uint32_t> shrink(std::vector<uint32_t> best, int maxAttempts, double maxSec) {
        double end = now() + maxSec;
        int attempts = 0;
        std::vector<std::pair<uint32_t, uint32_t>> spans;
        if (isolated(best)) { best = current(); spans = currentSpans(); }
        auto tryIt = [&](const std::vector<uint32_t> &cand) -> bool {
            if (attempts >= maxAttempts || now() > end) return false;
            if (!better(cand, best)) return false;
            attempts++;
            if (!isolated(cand)) return false;
            std::vector<uint32_t> cur = current();
            // the case may consume fewer choices than given
            best = (cur.size() <= cand.size()) ? cur : cand;
            spans = currentSpans();
            return true;
        };
        bool progress = true;
        while (progress && attempts < maxAttempts && now() < end) {
            progress = false;
            // runs of consecutive spans, then single spans (last first)
            for (int run = 8; run >= 1; run /= 2) {
                for (int i = (int) spans.size() - 1; i >= 0; i--) {
                    if (i >= (int) spans.size()) continue;
                    int last = i, first = i;
                    for (int k = 1; k < run && first > 0; k++) if (spans[first - 1].second <= spans[first].first) first--;
                    uint32_t a = spans[first].first, b = spans[last].second;
                    if (b <= a || b > best.size()) continue;
                    // together with the loop decision in front of the span, else without it
                    if (a > 0) {
                        std::vector<uint32_t> cand(best.begin(), best.begin() + (a - 1));
                        cand.insert(cand.end(), best.begin() + b, best.end());
                        if (tryIt(cand)) { progress = true; continue; }
                    }
                    std::vector<uint32_t> cand(best.begin(), best.begin() + a);
                    cand.insert(cand.end(), best.begin() + b, best.end());
                    if (tryIt(cand)) progress = true;
                }
            }
            for (size_t n = 8; n >= 1; n /= 2) {
                for (int i = (int) best.size() - (int) n; i >= 0; i -= (int) n) {
                    if (i + n > best.size()) continue;
                    std::vector<uint32_t> cand(best.begin(), best.begin() + i);
                    cand.insert(cand.end(), best.begin() + i + n, best.end());
                    if (tryIt(cand)) progress = true;
                }
            }
            for (size_t i = 0; i < best.size(); i++) {
                if (best[i] == 0) continue;
                std::vector<uint32_t> cand = best;
                cand[i] = 0;
                if (tryIt(cand)) { progress = true; continue; }
                while (i < best.size() && best[i] > 1) {
                    cand = best; cand[i] = best[i] / 2;
                    if (tryIt(cand)) progress = true; else break;
                }
                if (i < best.size() && best[i] > 0) {
                    cand = best; cand[i] = best[i] - 1;
                    if (tryIt(cand)) progress = true;
                }
            }
        }
        return best;
    }

    static std::string jsonEsc(const std::string &s) {
        std::string o;
        for (unsigned char ch : s) {
            if (ch == '"' || ch == '\\') { o += '\\'; o += (char) ch; }
            else if (ch == '\n') o += "\\n";
            else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
            else o += (char) ch;
        }
        return o;
    }

    int writeReplay(const std::string &path, const std::vector<uint32_t> &choices, const std::string &msg, const std::string &logText, uint64_t caseIndex) {
        FILE *f = fopen(path.c_str(), "w");
        if (!f) { perror(path.c_str()); return 2; }
        fprintf(f, "property %s\ncase %llu\nchoices", prop, (unsigned long long) caseIndex);
        for (auto v : choices) fprintf(f, " %u", v);
        fprintf(f, "\n--- failure ---\n%s\n--- operations (minimised) ---\n%s", msg.c_str(), logText.c_str());
        fclose(f);
        return 0;
    }

    int replay(const std::string &path) {
        FILE *f = fopen(path.c_str(), "r");
        if (!f) { perror(path.c_str()); return 2; }
        std::string text; char buf[4096]; size_t n;
        while ((n = fread(buf, 1, sizeof buf, f)) > 0) text.append(buf, n);
        fclose(f);
        std::vector<uint32_t> choices;
        size_t p = text.find("choices");
        if (p == std::string::npos) return 2;
        size_t e = text.find('\n', p);
        std::istringstream in(text.substr(p + 7, e - p - 7));
        uint32_t v; while (in >> v) choices.push_back(v);
        int rc = isolated(choices);
        printf("%s\n%s", sh->log, rc ? "" : "PASS\n");
        if (rc) printf("FAIL %s\n", sh->message);
        return rc ? 1 : 0;
    }

    int run(uint64_t seed, uint64_t start, uint64_t count, double deadline, const std::string &out) {
        double t0 = now();
        std::map<std::string, uint64_t> labels;
        std::unordered_set<uint64_t> hashes;
        std::vector<std::string> samples;
        uint64_t evals = 0, nontriv = 0;
        bool failed = false, timedOut = false;
        std::vector<uint32_t> failing; std::string failMsg;
        int pfd[2];
        if (pipe(pfd)) { perror("pipe"); return 2; }
        sh->casesDone = 0; sh->caseIndex = start;
        fflush(nullptr);
        pid_t p = fork();
        if (p < 0) { perror("fork"); return 2; }
        if (p == 0) {
            ::close(pfd[0]);
            redirect();
            FILE *o = fdopen(pfd[1], "w");
            bool to = false;
            uint64_t lastSample = 0;
            for (uint64_t i = start; i < start + count; i++) {
                if ((i & 15) == 0 && now() - t0 > deadline) { to = true; break; }
                uint64_t s = seed * 0x9e3779b97f4a7c15ULL + i * 0xd1342543de82ef95ULL + 0x5851f42d4c957f2dULL;
                splitmix(s);
                sh->caseIndex = i;
                bool nt; std::vector<std::string> ls;
                arm(10);
                bool bad;
                try { bad = runOne(nullptr, s, nt, &ls); } catch (...) { _exit(5); }
                if (bad) _exit(3);
                sh->casesDone++;
                evals++;
                for (auto &l : ls) labels[l]++;
                if (nt) {
                    nontriv++;
                    hashes.insert(fnv(sh->log, sh->logLen));
                    if (samples.size() < 4 && sh->logLen < 1500 && (samples.empty() || i > lastSample + count / 5)) { samples.push_back(sh->log); lastSample = i; }
                }
            }
            fprintf(o, "%llu %llu %d\n", (unsigned long long) evals, (unsigned long long) nontriv, (int) to);
            fprintf(o, "%zu\n", labels.size());
            for (auto &l : labels) fprintf(o, "%llu %s\n", (unsigned long long) l.second, l.first.c_str());
            fprintf(o, "%zu\n", samples.size());
            for (auto &s : samples) { fprintf(o, "%zu\n", s.size()); fwrite(s.data(), 1, s.size(), o); }
            fprintf(o, "%zu\n", hashes.size());
            for (auto h : hashes) fprintf(o, "%llx\n", (unsigned long long) h);
            fclose(o);
            _exit(0);
        }
        ::close(pfd[1]);
        std::string text; char buf[65536]; ssize_t n;
        while ((n = read(pfd[0], buf, sizeof buf)) > 0) text.append(buf, (size_t) n);
        ::close(pfd[0]);
        int st = 0;
        while (waitpid(p, &st, 0) < 0) {}
        std::string hashText, labelJson, sampleJson;
        uint64_t distinct = 0;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
            std::istringstream in(text);
            size_t k; int to; in >> evals >> nontriv >> to; timedOut = to;
            in >> k;
            for (size_t i = 0; i < k; i++) { uint64_t cnt; std::string l; in >> cnt; in.get(); std::getline(in, l); labelJson += (i ? ", \"" : "\"") + jsonEsc(l) + "\": " + std::to_string(cnt); }
            in >> k;
            for (size_t i = 0; i < k; i++) { size_t len; in >> len; in.get(); std::string s(len, ' '); in.read(&s[0], (std::streamsize) len); sampleJson += (i ? ", \"" : "\"") + jsonEsc(s) + "\""; }
            in >> distinct; in.get();
            hashText = text.substr((size_t) in.tellg() < text.size() ? (size_t) in.tellg() : text.size());
            FILE *h = fopen((out + ".hashes").c_str(), "w");
            if (h) { fwrite(hashText.data(), 1, hashText.size(), h); fclose(h); }
        } else {
            failed = true;
            evals = sh->casesDone + 1;
            failing = current();
            failMsg = (WIFEXITED(st) && WEXITSTATUS(st) == 3) ? std::string(sh->message) : describeStatus(st);
        }
        std::string reproduced = "null", replayPath;
        if (failed) {
            uint64_t idx = sh->caseIndex;
            int ok = isolated(failing);
            if (ok) {
                std::vector<uint32_t> small = shrink(failing, 3000, 40);
                int hits = 0;
                for (int i = 0; i < 3; i++) hits += isolated(small);
                if (hits == 3) failing = small;
            }
            int hits = 0; std::string msg = failMsg, logText;
            for (int i = 0; i < 3; i++) if (isolated(failing)) { hits++; msg = sh->message; }
            logText = sh->log;
            reproduced = std::to_string(hits);
            failMsg = msg;
            replayPath = out + ".replay";
            if (writeReplay(replayPath, failing, msg, logText, idx)) return 2;
        }
        FILE *o = fopen(out.c_str(), "w");
        if (!o) { perror(out.c_str()); return 2; }
        fprintf(o, "{\"property\":\"%s\",\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"timed_out\":%s,\"failed\":%s,\"reproduced\":%s,\"message\":\"%s\",\"replay\":\"%s\",\"labels\":{%s},\"samples\":[%s],\"wall\":%.2f}\n",
                prop, (unsigned long long) evals, (unsigned long long) nontriv, (unsigned long long) distinct, timedOut ? "true" : "false", failed ? "true" : "false",
                reproduced.c_str(), jsonEsc(failMsg).c_str(), jsonEsc(replayPath).c_str(), labelJson.c_str(), sampleJson.c_str(), now() - t0);
        fclose(o);
        return 0;
    }

    // one line per case: choices and a hash of everything the case logged (for comparing builds)
    int trace(uint64_t seed, uint64_t start, uint64_t count, double deadline, const std::string &out) {
        double t0 = now();
        uint64_t i = start;
        FILE *o = fopen(out.c_str(), "w");
        if (!o) { perror(out.c_str()); return 2; }
        while (i < start + count) {
            fflush(nullptr);
            pid_t p = fork();
            if (p < 0) { perror("fork"); return 2; }
            if (p == 0) {
                redirect();
                for (; i < start + count; i++) {
                    if ((i & 15) == 0 && now() - t0 > deadline) break;
                    uint64_t s = seed * 0x9e3779b97f4a7c15ULL + i * 0xd1342543de82ef95ULL + 0x5851f42d4c957f2dULL;
                    splitmix(s);
                    sh->caseIndex = i;
                    bool nt;
                    arm(10);
                    bool bad = runOne(nullptr, s, nt, nullptr);
                    fprintf(o, "%llu %016llx %d %d\n", (unsigned long long) i, (unsigned long long) fnv(sh->log, sh->logLen), (int) nt, (int) bad);
                }
                fclose(o);
                _exit(0);
            }
            int st = 0;
            while (waitpid(p, &st, 0) < 0) {}
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
            i = sh->caseIndex;   // this one ended the process: its hash is its fate
            fclose(o);
            o = fopen(out.c_str(), "a");
            fprintf(o, "%llu %s\n", (unsigned long long) i, "crash");
            i++;
        }
        fclose(o);
        return 0;
    }

    // prints choices and log of one case given by seed and index, or of a vector of choices
    int logOf(uint64_t seed, uint64_t index, const std::vector<uint32_t> *choices) {
        uint64_t s = seed * 0x9e3779b97f4a7c15ULL + index * 0xd1342543de82ef95ULL + 0x5851f42d4c957f2dULL;
        splitmix(s);
        fflush(nullptr);
        pid_t p = fork();
        if (p < 0) { perror("fork"); return 2; }
        if (p == 0) {
            redirect();
            arm(10);
            bool nt;
            try { runOne(choices, s, nt, nullptr); } catch (...) { _exit(5); }
            _exit(0);
        }
        int st = 0;
        while (waitpid(p, &st, 0) < 0) {}
        printf("choices");
        for (uint32_t k = 0; k < sh->nChoices; k++) printf(" %u", sh->choices[k]);
        printf("\n");
        for (uint32_t k = 0; k < sh->nSpans; k++) printf("%u-%u ", sh->spans[k][0], sh->spans[k][1]);
        printf("\n%s", sh->log);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) printf("%s\n", describeStatus(st).c_str());
        return 0;
    }
};

inline int mainImpl(const char *prop, CaseFn fn, int argc, char **argv) {
    Engine e;
    e.prop = prop; e.fn = fn;
    e.sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (e.sh == MAP_FAILED) { perror("mmap"); return 2; }
    if (argc >= 3 && !strcmp(argv[1], "replay")) {
        if (argc >= 4) e.errPath = argv[3];
        return e.replay(argv[2]);
    }
    if (argc == 7 && !strcmp(argv[1], "run"))
        return e.run(strtoull(argv[2], nullptr, 10), strtoull(argv[3], nullptr, 10), strtoull(argv[4], nullptr, 10), atof(argv[5]), argv[6]);
    if (argc == 7 && !strcmp(argv[1], "trace"))
        return e.trace(strtoull(argv[2], nullptr, 10), strtoull(argv[3], nullptr, 10), strtoull(argv[4], nullptr, 10), atof(argv[5]), argv[6]);
    if (argc == 4 && !strcmp(argv[1], "case")) return e.logOf(strtoull(argv[2], nullptr, 10), strtoull(argv[3], nullptr, 10), nullptr);
    if (argc == 3 && !strcmp(argv[1], "log")) {
        std::vector<uint32_t> choices;
        std::istringstream in(argv[2]);
        uint32_t v; while (in >> v) choices.push_back(v);
        return e.logOf(0, 0, &choices);
    }
    fprintf(stderr, "usage: %s run SEED START COUNT DEADLINE OUT | replay FILE [STDERR]\n", argv[0]);
    return 2;
}

template<class... A> inline std::string cat(const A &... a) {
    std::ostringstream o;
    int dummy[] = {0, ((void) (o << a), 0)...};
    (void) dummy;
    return o.str();
}
}

#define PBT_MAIN(ID, FN) int main(int argc, char **argv) { return pbt::mainImpl(ID, FN, argc, argv); }
