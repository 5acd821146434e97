"""Generated programs: a unit is plain data; a module turns it into a C++ function. Units are compiled several to a
program, run in child processes, and a failing unit is reduced and turned into a stand-alone replay program."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import subprocess
import time

HEAD = '#include "kinds.hpp"\n#include "answers.hpp"\n'


def program(mod, units):
    if hasattr(mod, "program"):
        return mod.program(units)
    parts = [HEAD]
    for i, u in enumerate(units):
        parts.append("namespace unit%d {\n%s\n}\n" % (i, mod.code(u)))
    parts.append("int main() { return runCases({%s}); }\n" % ", ".join("unit%d::run" % i for i in range(len(units))))
    return "".join(parts)


def write(r, text, tag):
    """-> the sources; a text of several files marks them with lines "//// FILE name\""""
    src = os.path.join(r.tmp, tag + ".cpp")
    if not text.startswith("//// FILE "):
        with open(src, "w") as f:
            f.write(text)
        return [src]
    d = os.path.join(r.tmp, tag + ".files")
    os.makedirs(d, exist_ok=True)
    srcs = []
    for part in text[len("//// FILE "):].split("\n//// FILE "):
        name, body = part.split("\n", 1)
        with open(os.path.join(d, name), "w") as f:
            f.write(body + "\n")
        if name.endswith(".cpp"):
            srcs.append(os.path.join(d, name))
    return srcs


def build_and_run(r, text, cfg, tag, timeout=240, extra=()):
    """-> (status, detail): 'ok', 'fail' (list of (index, text)), 'nocompile'"""
    from run import compile_cpp
    exe = os.path.join(r.tmp, tag)
    src = write(r, text, tag)
    try:
        rc, out, cmd = compile_cpp(src, exe, cfg, list(extra), timeout=600)
    except subprocess.TimeoutExpired:
        return "slow", "compiler timeout"
    if rc != 0:
        return "nocompile", cmd + "\n" + out[:8000]
    try:
        p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77:detect_stack_use_after_return=0", UBSAN_OPTIONS="exitcode=77"))
        out = p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return "slow", "run timeout"
    finally:
        try:
            os.remove(exe)
        except OSError:
            pass
    fails = []
    for line in out.splitlines():
        if line.startswith("CASE ") and " FAIL " in line:
            idx, msg = line[5:].split(" FAIL ", 1)
            if not any(i == int(idx) for i, _ in fails):
                fails.append((int(idx), msg))
    if p.returncode == 0 and not fails:
        return "ok", out
    if not fails:
        return "fail", [(None, "program ended with status %d: %s" % (p.returncode, out[-2000:]))]
    return "fail", fails


def run_units(r, mod, configs, units_per_program, programs, deadline, label="unit"):
    """Generates programs*units_per_program units (a function of the seed only) and decides each of them."""
    plan = []
    for k in range(programs):
        rng = random.Random("%s/%s/%s/%d" % (r.pid, label, r.seed, k))
        plan.append((configs[k % len(configs)], [mod.gen(rng, r.quick) for _ in range(units_per_program)]))
    run_plan(r, mod, plan, deadline, label)


def run_plan(r, mod, jobs, deadline, label="unit"):
    """jobs: list of (configuration, units)"""
    from run import JOBS, CheckError, header_compiles
    if r.violation is not None:
        return
    end = time.time() + deadline
    plan = [(k, cfg, units) for k, (cfg, units) in enumerate(jobs)]
    programs = len(plan)
    r.planned += sum(len(units) for _, units in jobs) * getattr(mod, "ROUNDS", 1)
    bad = []

    def go(job):
        k, cfg, units = job
        if time.time() > end or bad:
            return None
        status, detail = build_and_run(r, program(mod, units), cfg, "%s-%d" % (label, k), extra=getattr(mod, "FLAGS", ()))
        if status in ("fail", "nocompile"):
            bad.append(1)
        return k, cfg, units, status, detail

    results = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for res in ex.map(go, plan):
            if res is not None:
                results.append(res)
    skipped = programs - len(results)
    for k, cfg, units, status, detail in results:
        if status == "ok":
            hs, labels = [], {}
            rounds = getattr(mod, "ROUNDS", 1)   # repetitions with other values inside the program
            for u in units:
                if mod.nontrivial(u):
                    h = hashlib.sha1(json.dumps(u, sort_keys=True).encode()).hexdigest()[:14]
                    hs.extend("%s%d" % (h, i) for i in range(rounds))
                for l in mod.labels(u):
                    labels[l] = labels.get(l, 0) + 1
            r.add(len(units) * rounds, hs, labels, [mod.code(units[0])[:1500]] if k < 3 else [])
    for k, cfg, units, status, detail in results:
        if status == "slow":
            r.notes.append("program %d (%s): %s" % (k, cfg, detail))
        elif status in ("nocompile", "fail"):
            ok, text = header_compiles(r.tmp, cfg)
            if not ok:
                raise CheckError("header does not compile (%s): %s" % (cfg, text[:2000]))
            confirm(r, mod, cfg, units, status, detail, label)
            return
    if skipped:
        r.notes.append("%d of %d programs not run before the deadline" % (skipped, programs))


def confirm(r, mod, cfg, units, status, detail, label):
    """isolate the failing unit, reproduce, reduce, report"""
    from run import CheckError
    cands = units
    if status == "fail" and detail[0][0] is not None:
        cands = [units[detail[0][0]]]
    failing = None
    for u in cands:
        st, d = build_and_run(r, program(mod, [u]), cfg, label + "-single", extra=getattr(mod, "FLAGS", ()))
        if st in ("fail", "nocompile"):
            failing, kind, msg = u, st, d
            break
    if failing is None:
        st, d = build_and_run(r, program(mod, units), cfg, label + "-again", extra=getattr(mod, "FLAGS", ()))
        if st not in ("fail", "nocompile"):
            raise CheckError("failure could not be reproduced: %s" % (detail,))
        report(r, mod, cfg, program(mod, units), st, d, None)
        return
    end = time.time() + 60
    attempts = 0
    progress = True
    while progress and time.time() < end:
        progress = False
        for smaller in mod.reductions(failing):
            if time.time() > end:
                break
            attempts += 1
            st, d = build_and_run(r, program(mod, [smaller]), cfg, label + "-small", extra=getattr(mod, "FLAGS", ()))
            if st == kind:
                failing, msg, progress = smaller, d, True
                break
    # twice more
    n = 1
    for _ in range(2):
        st, d = build_and_run(r, program(mod, [failing]), cfg, label + "-repro", extra=getattr(mod, "FLAGS", ()))
        if st == kind:
            n += 1
    if n < 2:
        raise CheckError("failure not stable: %s" % (msg,))
    report(r, mod, cfg, program(mod, [failing]), kind, msg, failing)


def report(r, mod, cfg, text, kind, msg, unit):
    shown = msg if isinstance(msg, str) else "\n".join(m for _, m in msg)
    if kind == "nocompile":
        shown = "A program using only the public interface no longer compiles.\n" + shown
    r.report("property %s\n--- failure ---\n%s\n--- configuration ---\n%s\nprogram\nflags %s\nreplay with: python3 run.py %s --replay <this file>\n--- unit ---\n%s\n--- program (minimised) ---\n%s"
             % (r.pid, shown, cfg, " ".join(getattr(mod, "FLAGS", ())), r.pid, json.dumps(unit), text))


def replay(r, text):
    if "\nflags -fsyntax-only\n" in text:
        from gen import c27
        return c27.replay(r, text)
    cfg = text.split("--- configuration ---\n")[1].split("\n")[0]
    flags = text.split("\nflags ")[1].split("\n")[0].split()
    prog = text.split("--- program (minimised) ---\n", 1)[1]
    st, d = build_and_run(r, prog, cfg, "replay", extra=flags)
    print(st, d if isinstance(d, str) else "\n".join(m for _, m in d))
    return 0 if st == "ok" else 1


def without(lst, i):
    return lst[:i] + lst[i + 1:]
