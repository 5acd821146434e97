"""C30: the CMake package. A case is plain data: how the library is installed or included, how a consumer asks for it.

CMake runs the repository's build files, so everything it does is done as an unprivileged user inside a scratch directory."""
import concurrent.futures as cf
import copy
import hashlib
import json
import os
import shutil
import subprocess
import threading
import time

NOBODY = 65534
MARK = "--- package case ---\n"
SKIP = {".git", ".github", "_build", "build", "tests"}

MAIN = r'''
#include <fakeit.hpp>
struct I { virtual ~I() {} virtual int f(int) = 0; virtual void g() = 0; };
int main() {
    using namespace fakeit;
    Mock<I> m;
    When(Method(m, f).Using(1)).Return(5, 6);
    Fake(Method(m, g));
    int s = m.get().f(1) * 10 + m.get().f(1);
    m.get().g();
    bool twice = Verify(Method(m, f)).Exactly(2), never = Verify(Method(m, g)).Never();
    return s == 56 && twice && !never ? 0 : 1;
}
'''


def names(rng):
    return rng.choice(["p", "p", "inst", "a b", "x+y", "deep/er/root", "v2.0", "u_é"])


def version_request(rng, kind):
    """relative to the version V of the package: offsets of the components, number of components"""
    return {"kind": kind, "delta": [rng.choice([0, 0, 0, 0, 1, -1]), rng.choice([0, 0, 1, -1, -2]), rng.choice([0, 0, 1, -1])], "parts": rng.choice([1, 2, 3, 3]),
            "above": [0, rng.choice([0, 1, 2]), rng.choice([0, 1])], "above_parts": rng.choice([2, 3])}


def gen(rng, frameworks):
    c = {"mode": rng.choice(["install", "install", "install", "subdirectory", "fetch"]),
         "prefix": names(rng), "libdir": rng.choice(["", "", "", "lib64", "share", "lib/x86"]), "includedir": rng.choice(["", "", "", "inc", "include/third party"]),
         "destdir": rng.random() < .2, "move": rng.random() < .4, "twice": rng.random() < .15, "gone": rng.random() < .5, "late_prefix": rng.random() < .3,
         "find": rng.choice(["root", "root", "prefix", "dir", "envroot"]), "config_mode": rng.random() < .2,
         "request": version_request(rng, rng.choice(["none", "plain", "plain", "exact", "upto", "below"])),
         "void_p": rng.choice([0, 0, 4, 8]), "generator": rng.choice(["Ninja", "Unix Makefiles"]), "build": "",
         "uses": rng.sample(frameworks, rng.choice([1, 1, 2, 3])), "dev": rng.random() < .3, "type": rng.choice(["", "Debug", "Release"])}
    if rng.random() < .3:
        c["build"] = rng.choice(["standalone", "standalone", "tpunit"])
        c["type"] = rng.choice(["", "Debug"])   # the library does not support higher optimisation
    return c


def numbers(v):
    return tuple(int(x) for x in v.split("."))


def requested(req, version, key="delta", parts="parts", start=None):
    v = list(start or (numbers(version) + (0, 0, 0))[:3])
    v = [max(0, a + b) for a, b in zip(v, req[key])]
    return ".".join(map(str, v[:req[parts]]))


def pad(v):
    return (numbers(v) + (0, 0, 0, 0))[:4]


def request_text(req, version):
    """-> what stands in find_package, and whether the package has to be accepted"""
    if req["kind"] == "none":
        return "", True
    low = requested(req, version)
    if req["kind"] == "plain":
        return low, numbers(low)[0] == numbers(version)[0] and pad(low) <= pad(version)
    if req["kind"] == "exact":
        return low + " EXACT", low == version
    start = list(numbers(low) + (0, 0, 0))[:3]
    start[0] = numbers(low)[0]
    high = requested(req, version, "above", "above_parts", start)
    if pad(high) < pad(low) or (req["kind"] == "below" and pad(high) == pad(low)):
        return "", True
    ok = numbers(low)[0] == numbers(version)[0] and pad(low) <= pad(version)
    ok = ok and (pad(version) <= pad(high) if req["kind"] == "upto" else pad(version) < pad(high))
    return low + ("..." if req["kind"] == "upto" else "...<") + high, ok


class Broken(Exception):
    pass


class Inconclusive(Exception):
    pass


class Case:
    def __init__(self, r, repo, case, tag, frameworks):
        self.c, self.frameworks, self.repo = case, frameworks, repo
        self.top = os.path.join(r.tmp, tag)
        self.log = []
        shutil.rmtree(self.top, ignore_errors=True)
        os.makedirs(self.top)
        self.root = os.geteuid() == 0
        self.env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": self.top, "TMPDIR": self.top, "LANG": "C.UTF-8", "CXX": "g++"}

    def own(self, path):
        if self.root:
            for d, ds, fs in os.walk(path):
                for n in [d] + [os.path.join(d, f) for f in fs]:
                    os.chown(n, NOBODY, NOBODY)

    def sh(self, cmd, cwd=None, env=None, timeout=240):
        drop = dict(user=NOBODY, group=NOBODY, extra_groups=[]) if self.root else {}
        try:
            p = subprocess.run(cmd, cwd=cwd or self.top, env=dict(self.env, **(env or {})), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **drop)
        except subprocess.TimeoutExpired:
            raise Inconclusive("time limit: " + " ".join(cmd))
        return p.returncode, p.stdout.decode("utf-8", "replace")

    def must(self, cmd, what, **k):
        rc, out = self.sh(cmd, **k)
        if rc != 0:
            raise Broken("%s failed: %s\n%s" % (what, " ".join(cmd), out[-3000:]))
        return out

    def digest(self, path):
        h = hashlib.sha1()
        for d, ds, fs in sorted(os.walk(path)):
            ds.sort()
            for f in sorted(fs):
                with open(os.path.join(d, f), "rb") as x:
                    h.update((os.path.join(d, f) + "\0").encode() + x.read())
        return h.hexdigest()

    def run(self):
        try:
            self.decide()
            return None
        except Broken as e:
            return str(e)
        finally:
            shutil.rmtree(self.top, ignore_errors=True)

    def decide(self):
        c = self.c
        src = os.path.join(self.top, "src")
        shutil.copytree(self.repo, src, ignore=lambda d, ns: [n for n in ns if n in SKIP], symlinks=True)
        self.own(self.top)
        before = self.digest(src)
        con = os.path.join(self.top, "consumer")
        os.makedirs(con)
        found, args, env, version, request = True, [], {}, None, ""
        if c["mode"] == "install":
            prefix = os.path.join(self.top, "pre", c["prefix"])
            dest = os.path.join(self.top, "dest") if c["destdir"] else ""
            cfg = ["cmake", "-S", src, "-B", os.path.join(self.top, "libbuild"), "-G", c["generator"]]
            cfg += ["-DCMAKE_INSTALL_PREFIX=" + ("/nowhere/at all" if c["late_prefix"] else prefix)]
            cfg += ["-DCMAKE_INSTALL_LIBDIR=" + c["libdir"]] * bool(c["libdir"]) + ["-DCMAKE_INSTALL_INCLUDEDIR=" + c["includedir"]] * bool(c["includedir"])
            self.must(cfg, "configuring the library")
            with open(os.path.join(self.top, "libbuild", "CMakeCache.txt")) as f:
                version = [l.split("=", 1)[1].strip() for l in f if l.startswith("CMAKE_PROJECT_VERSION:")]
            if not version or not version[0]:
                raise Broken("the project has no version")
            version = version[0]
            self.must(["cmake", "--build", os.path.join(self.top, "libbuild")], "building the library")
            for _ in range(2 if c["twice"] else 1):
                self.must(["cmake", "--install", os.path.join(self.top, "libbuild")] + (["--prefix", prefix] if c["late_prefix"] else []), "installing", env={"DESTDIR": dest} if dest else {})
            if self.digest(src) != before:
                raise Broken("installing changed the sources")
            where = dest + prefix
            if not os.path.isdir(where):
                raise Broken("nothing was installed under the prefix")
            if c["move"]:
                os.rename(where, os.path.join(self.top, "moved"))
                where = os.path.join(self.top, "moved")
            if c["gone"]:
                shutil.rmtree(src)
                shutil.rmtree(os.path.join(self.top, "libbuild"))
            here = [d for d, _, fs in os.walk(where) if "FakeItConfig.cmake" in fs or "fakeit-config.cmake" in fs]
            if len(here) != 1:
                raise Broken("package files are installed in %s" % (here or "no place"))
            if c["find"] == "root":
                args = ["-DFakeIt_ROOT=" + where]
            elif c["find"] == "prefix":
                args = ["-DCMAKE_PREFIX_PATH=" + where]
            elif c["find"] == "envroot":
                env = {"FakeIt_ROOT": where}
            else:
                args = ["-DFakeIt_DIR=" + here[0]]
            if c["libdir"]:   # places find_package need not search
                args, env = ["-DFakeIt_DIR=" + here[0]], {}
            request, found = request_text(c["request"], version)
            get = "find_package(FakeIt %s %s)\n" % (request, "CONFIG" if c["config_mode"] else "")
            get += 'file(WRITE "${CMAKE_BINARY_DIR}/result" "${FakeIt_FOUND} ${FakeIt_VERSION}")\nif(NOT FakeIt_FOUND)\nreturn()\nendif()\n'
        else:
            where = src
            get = "set(watch_std \"${CMAKE_CXX_STANDARD}|${CMAKE_CXX_FLAGS}|${BUILD_SHARED_LIBS}|${CMAKE_BUILD_TYPE}|${BUILD_TESTING}\")\n"
            if c["mode"] == "subdirectory":
                get += 'add_subdirectory("%s" fk)\n' % src
            else:
                get += 'include(FetchContent)\nFetchContent_Declare(FakeIt SOURCE_DIR "%s")\nFetchContent_MakeAvailable(FakeIt)\n' % src
            get += 'if(NOT watch_std STREQUAL "${CMAKE_CXX_STANDARD}|${CMAKE_CXX_FLAGS}|${BUILD_SHARED_LIBS}|${CMAKE_BUILD_TYPE}|${BUILD_TESTING}")\nmessage(FATAL_ERROR "settings of the consumer changed")\nendif()\n'
            get += 'if(TARGET FakeIt_tests)\nmessage(FATAL_ERROR "tests are built without being asked for")\nendif()\nfile(WRITE "${CMAKE_BINARY_DIR}/result" "1 ")\n'
        text = "cmake_minimum_required(VERSION 3.19)\nproject(consumer LANGUAGES CXX)\nset(CMAKE_EXPORT_COMPILE_COMMANDS ON)\n"
        if c["void_p"]:
            text += "set(kept ${CMAKE_SIZEOF_VOID_P})\nset(CMAKE_SIZEOF_VOID_P %d)\n" % c["void_p"]
        text += get
        if c["void_p"]:
            text += "set(CMAKE_SIZEOF_VOID_P ${kept})\n"
        for f in self.frameworks:
            text += 'if(NOT TARGET FakeIt::FakeIt-%s)\nmessage(FATAL_ERROR "no target for %s")\nendif()\n' % (f, f)
        units = {}
        for f in c["uses"]:
            text += 'add_library(use-%s OBJECT EXCLUDE_FROM_ALL use-%s.cpp)\ntarget_link_libraries(use-%s PRIVATE FakeIt::FakeIt-%s)\n' % (f, f, f, f)
            units["use-%s.cpp" % f] = ("single", f)
            if c["dev"] and c["mode"] != "install":
                text += 'add_library(dev-%s OBJECT EXCLUDE_FROM_ALL dev-%s.cpp)\ntarget_link_libraries(dev-%s PRIVATE FakeIt_dev FakeIt_config_%s)\n' % (f, f, f, f)
                units["dev-%s.cpp" % f] = ("dev", f)
        for u in units:
            with open(os.path.join(con, u), "w") as f:
                f.write("#include <fakeit.hpp>\n")
        if c["build"]:
            text += "set(CMAKE_CXX_STANDARD 14)\nadd_executable(app main.cpp)\ntarget_compile_options(app PRIVATE -Wall -Wextra -Wshadow -Wconversion -Wold-style-cast -Werror)\ntarget_link_libraries(app PRIVATE FakeIt::FakeIt-%s)\n" % c["build"]
            with open(os.path.join(con, "main.cpp"), "w") as f:
                f.write(("#include <stdexcept>\n" if c["build"] == "tpunit" else "") + MAIN)
        with open(os.path.join(con, "CMakeLists.txt"), "w") as f:
            f.write(text)
        self.own(con)
        bld = os.path.join(self.top, "b")
        rc, out = self.sh(["cmake", "-S", con, "-B", bld, "-G", c["generator"]] + ["-DCMAKE_BUILD_TYPE=" + c["type"]] * bool(c["type"]) + args, env=env)
        try:
            with open(os.path.join(bld, "result")) as f:
                result = f.read().split(" ")
        except OSError:
            result = ["missing", ""]
        if c["mode"] == "install":
            if (result[0] in ("1", "TRUE")) != found:
                raise Broken("find_package(FakeIt %s) of a package of version %s: found is %s, expected %s\n%s" % (request, version, result[0], found, out[-3000:]))
            if not found:
                return
            if result[1] != version:
                raise Broken("FakeIt_VERSION is %s, the project's is %s" % (result[1], version))
        if rc != 0:
            raise Broken("configuring the consumer failed\n" + out[-3000:])
        with open(os.path.join(bld, "compile_commands.json")) as f:
            commands = {os.path.basename(e["file"]): e for e in json.load(f)}
        for u, (how, f) in sorted(units.items()):
            e = commands[u]
            cmd = e["command"].split(" -o ")[0] + " -M -MG " + "'" + os.path.join(con, u) + "'"
            deps = self.must(["bash", "-c", cmd], "listing what %s includes" % u, cwd=e["directory"])
            deps = deps.split(":", 1)[1].replace("\\\n", " ").replace("\\ ", "\0").split()
            deps = [os.path.normpath(os.path.join(e["directory"], d.replace("\0", " "))) for d in deps]
            got = [d for d in deps if os.path.basename(d) == "fakeit.hpp"]
            want = os.path.join(self.repo, "single_header" if how == "single" else "config", f, "fakeit.hpp")
            if len(got) != 1 or not os.path.exists(got[0]):
                raise Broken("%s includes %s" % (u, got or "no fakeit.hpp"))
            with open(got[0], "rb") as x, open(want, "rb") as y:
                if x.read() != y.read():
                    raise Broken("%s includes %s, which is not %s" % (u, got[0], want))
            if not got[0].startswith(where + "/"):
                raise Broken("%s includes %s, which is not below %s" % (u, got[0], where))
        if c["build"]:
            self.must(["cmake", "--build", bld], "building the consumer")
            rc, out = self.sh([os.path.join(bld, "app")], timeout=60)
            if rc != 0:
                raise Broken("the consumer's program ended with status %d\n%s" % (rc, out[-1000:]))
        elif c["mode"] != "install":
            self.must(["cmake", "--build", bld], "building a consumer that has nothing to build")


SIMPLE = {"mode": "install", "prefix": "p", "libdir": "", "includedir": "", "destdir": False, "move": False, "twice": False, "gone": False, "late_prefix": False, "find": "root",
          "config_mode": False, "void_p": 0, "generator": "Ninja", "build": "", "dev": False, "type": "", "request": {"kind": "none"}}


def reductions(c):
    for k, v in SIMPLE.items():
        if c[k] != v:
            d = copy.deepcopy(c)
            d[k] = v
            yield d
    if len(c["uses"]) > 1:
        for f in c["uses"]:
            d = copy.deepcopy(c)
            d["uses"] = [f]
            yield d


def check(r, repo, frameworks, n, deadline, jobs):
    os.chmod(r.tmp, 0o755)
    end = time.time() + deadline
    rng = r.rng("package")
    cases = []
    for i in range(n):
        c = gen(rng, frameworks)
        if i < len(frameworks):   # every configuration in every run, installed
            c["uses"] = [frameworks[i]] + [f for f in c["uses"] if f != frameworks[i]]
            c["mode"], c["request"] = "install", {"kind": "none"}
        if i == len(frameworks):
            c["build"], c["request"], c["type"] = "standalone", {"kind": "none"}, ""
        cases.append(c)
    r.planned += n
    stop = threading.Event()

    def go(k):
        if stop.is_set() or time.time() > end:
            return k, "late"
        try:
            m = Case(r, repo, cases[k], "case%d" % k, frameworks).run()
        except Inconclusive as e:
            return k, "late"
        if m:
            stop.set()
        return k, m

    failing = []
    with cf.ThreadPoolExecutor(jobs) as ex:
        for k, m in ex.map(go, range(n)):
            if m == "late":
                continue
            c = cases[k]
            wide = sum(1 for x, v in SIMPLE.items() if x != "request" and c[x] != v) + (c["request"]["kind"] != "none")
            r.add(1, [hashlib.sha1(json.dumps(c, sort_keys=True).encode()).hexdigest()] if wide >= 4 else [], {c["mode"]: 1, "request " + c["request"]["kind"]: 1, "built and run" if c["build"] else "looked up": 1},
                  [json.dumps(c, sort_keys=True)] if k % 11 == 3 else [])
            if m:
                failing.append((k, m))
    if not failing:
        return
    c, m = cases[failing[0][0]], failing[0][1]
    end = time.time() + 60
    progress = True
    while progress and time.time() < end:
        progress = False
        for d in reductions(c):
            if time.time() > end:
                break
            try:
                got = Case(r, repo, d, "reduce", frameworks).run()
            except Inconclusive:
                continue
            if got:
                c, m, progress = d, got, True
                break
    hits = sum(1 for _ in range(3) if Case(r, repo, c, "confirm", frameworks).run())
    if hits == 0:
        from run import CheckError
        raise CheckError("failure could not be reproduced: " + m)
    r.report("property %s\n--- failure ---\n%s\nreproduced %d/3\nreplay with: python3 run.py %s --replay <this file>\n%s%s\n" % (r.pid, m, hits, r.pid, MARK, json.dumps(c, sort_keys=True)))


def replay(r, repo, frameworks, text):
    os.chmod(r.tmp, 0o755)
    m = Case(r, repo, json.loads(text.split(MARK)[1]), "replay", frameworks).run()
    print(m or "held")
    return 1 if m else 0
