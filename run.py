#!/usr/bin/env python3
"""Runs the check of one property: python3 run.py <ID> [--replay FILE CONFIG]

Exit 0: held; exit 1 + "VIOLATION property=<ID> replay=<path>": broken; anything else: error of the check.
"""
import concurrent.futures as cf
import importlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
SAN = "-g1 -fsanitize=address,undefined -fno-sanitize=vptr,null,object-size -fno-sanitize-recover=all -fno-omit-frame-pointer"
CONFIGS = {
    "g++-c++11-O0": "g++ -std=c++11 -O0",
    "g++-c++11-O1": "g++ -std=c++11 -O1",
    "g++-c++14-O0": "g++ -std=c++14 -O0",
    "g++-c++14-O1": "g++ -std=c++14 -O1",
    "g++-c++17-O0": "g++ -std=c++17 -O0",
    "g++-c++20-O1": "g++ -std=c++20 -O1",
    "g++-c++17-san": "g++ -std=c++17 -O0 " + SAN,
    "g++-c++11-san": "g++ -std=c++11 -O0 " + SAN,
    "clang-c++11-O0": "clang++ -std=c++11 -O0",
    "clang-c++14-O0": "clang++ -std=c++14 -O0",
    "clang-c++17-O0": "clang++ -std=c++17 -O0",
    "clang-c++17-O1": "clang++ -std=c++17 -O1",
    "clang-c++20-O0": "clang++ -std=c++20 -O0",
    "clang-c++20-san": "clang++ -std=c++20 -O0 " + SAN + " -fno-sanitize=function",
}
for _cxx, _name in (("g++", "g++"), ("clang++", "clang")):
    for _std in ("11", "14", "17", "20"):
        for _opt in ("O0", "O1"):
            CONFIGS.setdefault("%s-c++%s-%s" % (_name, _std, _opt), "%s -std=c++%s -%s" % (_cxx, _std, _opt))
WARN = "-w"
DEFAULT = "g++-c++14-O0"   # what the repository's own tests need at least
FRAMEWORKS = ["standalone", "tpunit", "cute", "mettle", "mstest", "nunit", "qtest", "gtest", "doctest", "boost", "catch"]
LIBS = {"gtest": ["-lgtest", "-lpthread"], "catch": ["-lCatch2"], "boost": ["-lboost_unit_test_framework"]}
BEFORE = {"nunit": "nunit_standin.h", "mettle": "mettle_standin.h", "tpunit": "stdexcept"}


class CheckError(Exception):
    pass


def includes(conf="standalone"):
    return ["-I" + REPO + "/include", "-I" + REPO + "/config/" + conf, "-I" + HERE + "/lib"]


def compile_cpp(src, out, config, extra=(), incs=None, timeout=600, libs=()):
    cmd = CONFIGS[config].split() + [WARN] + (incs if incs is not None else includes()) + list(extra) + ([src] if isinstance(src, str) else list(src)) + ["-o", out] + list(libs)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode("utf-8", "replace"), " ".join(cmd)


def header_compiles(tmp, config, incs=None):
    """False when the library cannot be used at all, which is an error and no verdict."""
    src = os.path.join(tmp, "trivial.cpp")
    with open(src, "w") as f:
        f.write('#include "fakeit.hpp"\nint main() { return 0; }\n')
    text = ""
    for c in dict.fromkeys((config, DEFAULT)):
        rc, out, _ = compile_cpp(src, os.path.join(tmp, "trivial-" + c), c, incs=incs if c == config else None)
        if rc == 0:
            return True, ""
        text = text or out
    return False, text


class Build:
    """How a harness is built: configuration, test framework, and which of the library's headers it takes."""
    def __init__(self, config, framework="standalone", headers="sources", defines=()):
        self.config, self.framework, self.headers, self.defines = config, framework, headers, tuple(defines)

    def __str__(self):
        return " ".join((self.config, self.framework, self.headers) + self.defines)

    @staticmethod
    def parse(text):
        p = text.split()
        return Build(p[0], p[1], p[2], p[3:])

    def flags(self, run):
        """-> include flags, other flags, libraries"""
        f = self.framework
        if self.headers == "sources":
            inc = ["-I" + REPO + "/include", "-I" + REPO + "/config/" + f]
        elif self.headers == "shipped":
            inc = ["-I" + REPO + "/single_header/" + f]
        else:
            inc = ["-I" + run.generated(self.headers) + "/single_header/" + f]
        inc += ["-I" + HERE + "/lib", "-I" + HERE + "/lib/fw/shims"]
        if f == "doctest":
            inc.append("-I/usr/include/doctest")
        other = ["-DFW_" + f.upper()] + list(self.defines)
        if f == "doctest":
            other.append("-DDOCTEST_CONFIG_IMPLEMENT")
        if f in BEFORE:
            other += ["-include", BEFORE[f]]
        return inc, other, LIBS.get(f, [])


class Run:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.evidence_dir = os.path.join(HERE, "evidence")
        os.makedirs(self.evidence_dir, exist_ok=True)
        self.violation = None     # text of the replay file
        self.evaluations = 0
        self.hashes = set()
        self.labels = {}
        self.samples = []
        self.notes = []
        self.known = []
        self.planned = 0
        self.lock = threading.Lock()

    @property
    def quick(self):
        return self.tier == "quick"

    def rng(self, label):
        return random.Random("%s/%s/%s" % (self.pid, self.seed, label))

    def report(self, text):
        """First violation wins."""
        if self.violation is None:
            self.violation = text

    def add(self, evaluations=0, hashes=(), labels=None, samples=()):
        self.evaluations += evaluations
        self.hashes.update(hashes)
        for k, v in (labels or {}).items():
            self.labels[k] = self.labels.get(k, 0) + v
        for s in samples:
            if len(self.samples) < 8:
                self.samples.append(s)

    # ---- engine A -------------------------------------------------------------------------
    def engine_a(self, harness, configs, cases, deadline=None, variants=((),)):
        """configs: list of configuration names; cases: number of cases per configuration (dict or int);
        variants: tuples of -D flags, each built as a program of its own."""
        deadline = deadline or (90 if self.quick else 500)
        src = os.path.join(HERE, "harness", harness)
        units = [c if isinstance(c, Build) else Build(c, defines=v) for v in variants for c in configs]
        bins = self.build(src, units)
        if bins is None:
            return
        shards = max(1, JOBS // len(units))
        jobs = []
        for ci, unit in enumerate(units):
            n = cases[unit.config] if isinstance(cases, dict) else cases
            per = (n + shards - 1) // shards
            for s in range(shards):
                start = (ci * shards + s) * 10_000_000
                jobs.append((unit, start, per))
        self.planned += sum(j[2] for j in jobs)

        def go(job):
            unit, start, per = job
            out = os.path.join(self.tmp, "%s-%d.json" % (harness, start))
            cmd = [bins[unit], "run", str(self.seed), str(start), str(per), str(deadline), out]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0 or not os.path.exists(out):
                raise CheckError("runner failed: %s: %s" % (" ".join(cmd), r.stdout.decode("utf-8", "replace")[:2000]))
            with open(out, encoding="utf-8", errors="replace") as f:
                d = json.load(f)
            hs = []
            if os.path.exists(out + ".hashes"):
                with open(out + ".hashes") as f:
                    hs = [l.strip() for l in f if l.strip()]
            return unit, cmd, d, hs

        failing = []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for unit, cmd, d, hs in ex.map(go, jobs):
                self.add(d["evaluations"], hs, d["labels"], d["samples"][:1])
                if d["timed_out"]:
                    self.notes.append("deadline reached in %s after %d cases" % (unit, d["evaluations"]))
                if d["failed"]:
                    failing.append((unit, cmd, d))
        for unit, cmd, d in failing:
            if d["reproduced"] >= 1:
                with open(d["replay"], encoding="utf-8", errors="replace") as f:
                    text = f.read()
                err = os.path.join(self.tmp, "stderr.txt")
                subprocess.run([bins[unit], "replay", d["replay"], err], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                extra = ""
                if os.path.exists(err):
                    with open(err, encoding="utf-8", errors="replace") as f:
                        extra = f.read()[:6000]
                self.report("%s\n--- configuration ---\n%s\nharness %s\nreproduced %d/3\nreplay with: python3 run.py %s --replay <this file>\n--- output ---\n%s"
                            % (text.rstrip(), unit, harness, d["reproduced"], self.pid, extra))
                return
        for unit, cmd, d in failing:
            # state carried over between cases: confirm by repeating the whole run
            out = cmd[-1] + ".again"
            subprocess.run(cmd[:-1] + [out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            with open(out, encoding="utf-8", errors="replace") as f:
                d2 = json.load(f)
            if d2["failed"] and d2["evaluations"] == d["evaluations"]:
                self.report("property %s\nfails only after the preceding cases of the same run\ncommand: harness/%s [%s] run %s\n%s\n" % (self.pid, harness, unit, " ".join(cmd[2:6]), d["message"]))
                return
        if failing:
            raise CheckError("failure could not be reproduced: " + failing[0][2]["message"])

    def replay_a(self, path):
        with open(path, encoding="utf-8", errors="replace") as f:
            text = f.read()
        if "--- program (minimised) ---" in text:
            from gen import core
            return core.replay(self, text)
        if "--- package case ---" in text:
            from gen import c30
            return c30.replay(self, REPO, FRAMEWORKS, text)
        harness = text.split("\nharness ")[1].split("\n")[0]
        units = [Build.parse(l) for l in text.split("--- configuration ---\n")[1].split("\nharness")[0].split("\n")]
        bins = self.build(os.path.join(HERE, "harness", harness), units)
        if bins is None:
            print(self.violation)
            return 1
        if len(units) == 1:
            return subprocess.run([bins[units[0]], "replay", path]).returncode
        choices = text.split("\nchoices ")[1].split("\n")[0]
        logs = [self.log_of(bins[u], "log", choices)[2] for u in units]
        for u, l in zip(units, logs):
            print("== %s\n%s" % (u, l))
        return 0 if logs[0] == logs[1] else 1

    # ---- building -------------------------------------------------------------------------
    def generated(self, how):
        """Copy of the sources with single headers written by the repository's script; how: 'all' or 'each'"""
        with self.lock:
            d = os.path.join(self.tmp, "generated-" + how)
            if os.path.exists(d):
                return d
            w = d + ".part"
            os.makedirs(w)
            for n in ("include", "config"):
                shutil.copytree(os.path.join(REPO, n), os.path.join(w, n))
            shutil.copy(os.path.join(REPO, "generate_fakeit_single_header.py"), w)
            script = [sys.executable, os.path.join(w, "generate_fakeit_single_header.py")]
            for args in ([["-a"]] if how == "all" else [["-c"] + FRAMEWORKS]):
                r = subprocess.run(script + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=w if how == "all" else "/", env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"), timeout=120)
                if r.returncode != 0:
                    self.report("property %s\nthe single-header script failed: %s\n%s" % (self.pid, args, r.stdout.decode("utf-8", "replace")[:4000]))
            os.rename(w, d)
            return d

    def build(self, src, units):
        """-> {unit: program}, or None after reporting a violation"""
        base = os.path.basename(src).replace(".cpp", "")
        more = src.replace(".cpp", "-other.cpp")   # a second translation unit
        srcs = [src] + ([more] if os.path.exists(more) else [])

        def one(unit):
            out = os.path.join(self.tmp, "%s-%d" % (base, units.index(unit)))
            inc, other, libs = unit.flags(self)
            return unit, out, compile_cpp(srcs, out, unit.config, ["-DVERIF_HARNESS"] + other, inc, libs=libs)

        # longest builds (sanitizers) first
        order = sorted(units, key=lambda u: not u.config.endswith("san"))
        bins = {}
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for unit, out, (rc, text, cmd) in ex.map(one, order):
                if rc != 0:
                    ok, t2 = header_compiles(self.tmp, unit.config)
                    if not ok:
                        raise CheckError("header does not compile (%s): %s" % (unit, t2[:2000]))
                    self.report("property %s\nA program using only the public interface does not compile (%s).\ncommand: %s\n%s" % (self.pid, unit, cmd, text[:20000]))
                    return None
                bins[unit] = out
        return bins

    # ---- comparing builds -----------------------------------------------------------------
    def log_of(self, program, *args):
        """-> choices, spans, log"""
        r = subprocess.run([program] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
        lines = r.stdout.decode("utf-8", "replace").split("\n", 2)
        return [int(x) for x in lines[0].split()[1:]], [tuple(map(int, x.split("-"))) for x in lines[1].split()], lines[2]

    def compare(self, harness, units, cases, label):
        """Runs the same cases in all builds; units[0] is the reference."""
        if self.violation is not None:
            return
        bins = self.build(os.path.join(HERE, "harness", harness), units)
        if bins is None:
            return
        deadline = 120 if self.quick else 600

        def go(unit):
            out = os.path.join(self.tmp, "%s-%d.trace" % (label, units.index(unit)))
            n = cases // 5 if unit.config.endswith("san") else cases
            r = subprocess.run([bins[unit], "trace", str(self.seed), "0", str(n), str(deadline), out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                raise CheckError("runner failed: %s %s" % (unit, r.stdout.decode("utf-8", "replace")[:2000]))
            with open(out) as f:
                return unit, [l.split() for l in f]

        with cf.ThreadPoolExecutor(JOBS) as ex:
            traces = dict(ex.map(go, units))
        ref = {int(l[0]): l[1:] for l in traces[units[0]]}
        self.planned += cases * len(units)
        for unit in units:
            self.add(len(traces[unit]), labels={str(unit): len(traces[unit])})
        self.add(0, ["%s %s" % (k, v[0]) for k, v in ref.items() if len(v) > 1 and v[1] == "1"])
        first = self.log_of(bins[units[0]], "case", self.seed, min(3, cases - 1))
        self.add(samples=[first[2][:1500]])
        for unit in units[1:]:
            for l in traces[unit]:
                if int(l[0]) in ref and l[1:] != ref[int(l[0])]:
                    self.difference(harness, units[0], unit, bins, int(l[0]))
                    return

    def difference(self, harness, a, b, bins, index):
        choices, spans, la = self.log_of(bins[a], "case", self.seed, index)
        _, _, lb = self.log_of(bins[b], "case", self.seed, index)
        if la == lb:
            raise CheckError("difference in case %d between %s and %s could not be reproduced" % (index, a, b))
        end = time.time() + 45

        def differs(cand):
            t = " ".join(map(str, cand))
            ca, sa, x = self.log_of(bins[a], "log", t)
            cb, _, y = self.log_of(bins[b], "log", t)
            return (ca, sa, x, y) if x != y else None

        cur = differs(choices)
        if cur:
            progress = True
            while progress and time.time() < end:
                progress = False
                for s, e in reversed(cur[1]):
                    if time.time() > end or e > len(cur[0]):
                        continue
                    for s2 in ((s - 1, s) if s else (s,)):
                        cand = cur[0][:s2] + cur[0][e:]
                        got = differs(cand) if len(cand) < len(cur[0]) else None
                        if got and len(got[0]) < len(cur[0]):
                            cur, progress = got, True
                            break
            choices, la, lb = cur[0], cur[2], cur[3]
        hits = sum(1 for _ in range(3) if differs(choices)) if cur else 3
        if hits == 0:
            raise CheckError("difference between %s and %s could not be reproduced" % (a, b))
        self.report("property %s\ncase %d\nchoices %s\n--- failure ---\nthe same program gives different results in two builds\n--- configuration ---\n%s\n%s\nharness %s\nreproduced %d/3\nreplay with: python3 run.py %s --replay <this file>\n--- results (%s) ---\n%s\n--- results (%s) ---\n%s"
                    % (self.pid, index, " ".join(map(str, choices)), a, b, harness, hits, self.pid, a, la[:6000], b, lb[:6000]))

    def probe(self, files, text):
        """A known finding: announced while the program in probes/ still shows it (exit 10), otherwise silent."""
        out = os.path.join(self.tmp, "probe-" + files[0])
        cmd = CONFIGS["g++-c++17-O0"].split() + [WARN] + includes() + [os.path.join(HERE, "probes", f) for f in files] + ["-o", out]
        try:
            if subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300).returncode == 0 and \
                    subprocess.run([out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode == 10:
                self.known.append(text)
        except subprocess.TimeoutExpired:
            pass

    # ---- result ---------------------------------------------------------------------------
    def finish(self, rule, assumptions=()):
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {"evaluations": self.evaluations, "distinct_nontrivial": len(self.hashes), "rule": rule,
                         "samples": self.samples[:8], "distribution": dict(sorted(self.labels.items()))},
            "assumptions": list(assumptions) + self.notes,
            "violations": [] if self.violation is None else [self.violation[:4000]],
            "wall_s": round(time.time() - self.t0, 2),
        }
        with open(os.path.join(self.evidence_dir, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if self.violation is not None:
            path = os.path.join(self.evidence_dir, self.pid + ".replay.txt")
            with open(path, "w") as f:
                f.write(self.violation + "\n")
            print(self.violation[:1500])
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        if self.evaluations < self.planned // 10:
            print("too few cases ran: %d of %d" % (self.evaluations, self.planned))
            return 2
        print("%s held: %d cases, %d distinct non-trivial, %.1fs" % (self.pid, self.evaluations, len(self.hashes), time.time() - self.t0))
        return 0

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def main():
    pid = sys.argv[1]
    r = Run(pid)
    try:
        if len(sys.argv) >= 4 and sys.argv[2] == "--replay":
            return r.replay_a(sys.argv[3])
        checks = importlib.import_module("checks")
        rule, assumptions = checks.CHECKS[pid](r)
        return r.finish(rule, assumptions)
    except CheckError as e:
        print("ERROR %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        r.cleanup()


if __name__ == "__main__":
    import run   # as a module, so that there is one copy of its classes
    sys.exit(run.main())
