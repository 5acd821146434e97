"""One function per property: runs the generated cases and returns (non-trivial rule, assumptions)."""
from gen import core, c07 as g07, c07wide, c08 as g08, c09 as g09, c10 as g10, c11 as g11, c17 as g17, c18 as g18, c25 as g25, c27 as g27, c28 as g28, c30 as g30

STD = ["g++-c++11-O0", "g++-c++17-san", "clang-c++17-O1", "g++-c++14-O1"]


def counts(r, quick, thorough, configs=STD):
    n = quick if r.quick else thorough
    return {c: (n // 4 if c.endswith("san") else n) for c in configs}


def c01(r):
    r.engine_a("c01.cpp", STD, counts(r, 40000, 400000))
    return ("at least 2 calls answered by scripts containing 2 action kinds or a count of 2 or more", [])


def c02(r):
    cf = ["g++-c++14-O1", "g++-c++17-san", "clang-c++17-O1", "clang-c++20-O0"]
    r.engine_a("c02.cpp", cf, counts(r, 80000, 800000, cf))
    return ("some call was accepted by at least 2 stubbings", [])


def c03(r):
    cf = ["g++-c++14-O0", "clang-c++17-O0", "clang-c++20-san"]
    r.engine_a("c03.cpp", cf, counts(r, 60000, 600000, cf), variants=[("-DPART=1",), ("-DPART=2",)])
    return ("the case saw both an accepted and a rejected actual argument",
            ["ordering of C strings is the byte order of strcmp", "distance for ApproxEq is computed in the floating type of the arguments"])


C14 = ["g++-c++14-O0", "clang-c++17-O1", "g++-c++17-san", "g++-c++20-O1"]   # harnesses written in C++14


def c04(r):
    r.engine_a("c04.cpp", C14, counts(r, 60000, 700000, C14))
    return ("after at least one call, a pattern of 2 or more steps, or one with an occurrence, was verified", [])


def c05(r):
    r.engine_a("c05.cpp", C14, counts(r, 60000, 700000, C14))
    return ("calls on at least 2 mocks; a verification examined some calls and either left calls out or had several sources", [])


def c06(r):
    r.engine_a("c06.cpp", C14, counts(r, 60000, 700000, C14))
    return ("a verification with occurrences passed and some, but not all, calls were verified at some point", [])


def c12(r):
    r.engine_a("c12.cpp", STD, counts(r, 50000, 500000))
    return ("a reset or clear happened after calls had been made", [])


def c13(r):
    r.engine_a("c13.cpp", STD, counts(r, 50000, 500000))
    return ("at least one call answered and at least one unexpected", ["listeners return normally"])


def c14(r):
    r.engine_a("c14.cpp", C14, counts(r, 60000, 600000, C14))
    return ("at least one failing and one passing verification statement",
            ["verifications run while another exception is unwinding the stack are treated as cancelled (documented behaviour)",
             "a verification object is converted to bool at most once"])


def c15(r):
    cf = ["g++-c++14-O0", "clang-c++17-O0", "clang-c++20-san"]
    r.engine_a("c15.cpp", cf, counts(r, 40000, 400000, cf), variants=[("-DPART=1",), ("-DPART=2",), ("-DPART=3",)])
    return ("a failure message with at least one call or argument was compared", ["the C locale"])


def c26(r):
    r.engine_a("c26.cpp", C14, counts(r, 40000, 400000, C14))
    return ("a request was rejected after at least one recorded call", [])


def c16(r):
    r.engine_a("c16.cpp", STD, counts(r, 25000, 250000))
    return ("at least 2 calls were answered by a stubbing with instrumented objects",
            ["arguments recorded by reference outlive the history", "variables handed to ReturnAndSet outlive the stubbing"])


def c19(r):
    r.engine_a("c19.cpp", STD, counts(r, 25000, 250000))
    return ("at least 2 mocks (or methods) with 2 or more operations each", [])


def c20(r):
    r.engine_a("c20.cpp", STD, counts(r, 40000, 400000))
    return ("at least one statement was cancelled, with some stubbing or call around it", [])


def c21(r):
    r.engine_a("c21.cpp", STD, counts(r, 30000, 300000))
    return ("actions nested at least 2 deep", ["no reset of a mock while one of its actions runs"])


MATRIX = ["%s-c++%s-%s" % (c, s, o) for o in ("O0", "O1") for c in ("g++", "clang") for s in ("11", "14", "17", "20")]


def c22(r):
    from run import Build, FRAMEWORKS
    units = [Build(c, f) for f in FRAMEWORKS for c in (["g++-c++17-O0", "clang-c++20-O1"] if r.quick else ["g++-c++17-O0", "clang-c++20-O1", "g++-c++17-san"])]
    r.engine_a("c22.cpp", units, 6000 if r.quick else 60000)
    return ("at least one failing and one passing verification or call", ["CUTE, mettle, NUnit, Qt Test and MSTest are represented by stand-in headers",
            "the Qt Test, NUnit and MSTest adapters do not report locations"])


def c23(r):
    from run import Build, FRAMEWORKS
    cfg = ["g++-c++14-O0", "clang-c++17-O0"]
    some = FRAMEWORKS
    # headers made by the script: same results as the sources, and the adapters work
    r.compare("c24.cpp", [Build("g++-c++14-O0")] + [Build(cfg[i % 2], f, "all" if i % 3 else "each") for i, f in enumerate(some)], 5000 if r.quick else 60000, "generated")
    if r.violation is None:
        r.engine_a("c22.cpp", [Build("g++-c++17-O0", f, "each" if i % 2 else "all") for i, f in enumerate(FRAMEWORKS)], 3000 if r.quick else 30000)
    # headers in the repository, leaving out inputs that meet later fixes in the sources
    r.compare("c24.cpp", [Build("g++-c++14-O0", defines=["-DSHIPPED"])] + [Build(cfg[(i + 1) % 2], f, "shipped", ["-DSHIPPED"]) for i, f in enumerate(some)], 5000 if r.quick else 60000, "shipped")
    if r.violation is None:
        r.engine_a("c22.cpp", [Build("g++-c++17-O0", f, "shipped", ["-DSHIPPED"]) for f in FRAMEWORKS], 3000 if r.quick else 30000)
    return ("a history of at least 3 operations, or one with a failing and a passing verification or call",
            ["shipped headers: inputs that meet fixes made in the sources after their generation are left out", "addresses in messages are masked"])


def c24(r):
    from run import Build
    units = [Build(c) for c in MATRIX] + [Build("g++-c++17-san"), Build("clang-c++20-san")]
    r.compare("c24.cpp", units, 12000 if r.quick else 120000, "matrix")
    return ("a history of at least 3 operations (every history is run in all builds)", ["addresses in messages are masked"])


# configurations for generated programs
GEN = ["g++-c++11-O0", "clang-c++14-O0", "g++-c++20-O1", "g++-c++17-san", "clang-c++20-O0", "g++-c++14-O1", "clang-c++17-O1", "clang-c++20-san"]
BY_PROGRAM = ("program generation (property-based): random class shapes and signatures with random operation scripts are written out as C++ programs, "
              "compiled against the working tree and run; results are compared with an oracle computed from the script; failing units are reduced to a minimal stand-alone program")


def c07(r):
    wide = []
    sweep = [998, 1000] if not r.quick else [998]
    for n in sweep:
        for k in range(8):
            wide.append((GEN[(k + r.seed) % 8 if not r.quick else [0, 1, 4][(k + r.seed) % 3]], [c07wide.unit(n, -1 if n == 1000 else r.rng("dtor").randint(0, n), k, 8, r.rng("split").randint(1, n - 1), r.seed)]))
    core.run_plan(r, c07wide, wide, 300, "sweep")
    core.run_units(r, c07wide, GEN, 2, 8 if r.quick else 48, 300, "wide")
    core.run_units(r, g07, GEN, 5, 24 if r.quick else 160, 90 if r.quick else 600)
    r.probe(["two-units-a.cpp", "two-units-b.cpp"], "one mock stubbed from two translation units may route calls to the wrong stubbing")
    return ("a class with at least 3 virtual methods of which at least 2 are stubbed", ["no multiple or virtual inheritance", "at most 1000 virtual functions (limit of the library)"])


def programs(r, mod, per, quick, thorough):
    if hasattr(mod, "sweep"):   # a fixed part of the domain, covered in every run
        us = mod.sweep(r.rng("sweep"))
        chunks = [us[i:i + 10] for i in range(0, len(us), 10)]
        core.run_plan(r, mod, [(GEN[(k + r.seed) % len(GEN)], c) for k, c in enumerate(chunks)], 120 if r.quick else 600, "sweep")
    core.run_units(r, mod, GEN, per, quick if r.quick else thorough, 120 if r.quick else 600)


def c08(r):
    programs(r, g08, 8, 16, 128)
    return ("a signature with at least 2 parameters", ["arguments recorded by reference outlive the history", "actions do not modify their by-value arguments"])


def c09(r):
    programs(r, g09, 8, 24, 200)
    return ("a value or reference result with at least 2 steps", ["callers do not write through a reference to a default result",
            "results by reference to classes without default constructor have no default (null reference, existing tests)"])


def c10(r):
    programs(r, g10, 8, 16, 128)
    return ("at least one designated argument in a signature with 2 or more parameters", ["designated arguments are pointers or lvalue references",
            "variables given as out-values live as long as the stubbing"])


def c11(r):
    r.engine_a("c11.cpp", STD, counts(r, 40000, 400000))
    programs(r, g11, 6, 12, 96)
    r.probe(["spy-named.cpp"], "naming a method of a spied object that was never stubbed or spied (e.g. in Verify) detaches it from the original")
    r.probe(["spy-derived.cpp"], "an object spied on through a base class loses the virtual methods its own class adds")
    return ("at least 2 calls forwarded to an original (histories); a spied signature with parameters (programs)",
            ["objects are spied on through their own class", "only methods that were stubbed or spied are named in verifications"])


def c17(r):
    programs(r, g17, 8, 28, 160)
    return ("the destructor was stubbed and the object destroyed at least once, or the class has no virtual destructor",
            ["no deletion after the script of the destructor is used up (the failure would be thrown out of a destructor)"])


def c18(r):
    programs(r, g18, 8, 28, 160)
    return ("at least 2 data members, written or stubbed at least twice", ["members of class type are used only once stubbed", "no over-aligned members"])


def c25(r):
    programs(r, g25, 8, 28, 160)
    return ("inheritance depth of at least 2 and at least one stubbing, clear or reset", ["spied objects are spied through their own class"])


def c27(r):
    g27.check(r, ["%s-c++%s-O0" % (c, s) for s in ("11", "14", "17", "20") for c in ("g++", "clang")], 256 if r.quick else 2400, 100 if r.quick else 700)
    return ("every request has exactly one fault, next to a corrected twin", ["several bases: GCC only; positions beyond the last argument: C++14 and later"])


def c28(r):
    programs(r, g28, 6, 16, 96)
    return ("operations in at least 2 translation units", ["all stubbing of one mock happens in one translation unit (the opposite is the known finding of C07)"])


def c29(r):
    flag = "-DFAKEIT_ASSERT_ON_UNEXPECTED_METHOD_INVOCATION"
    cf = ["g++-c++11-O0", "clang-c++17-O1", "g++-c++17-san"]
    r.engine_a("c13.cpp", cf, counts(r, 5000, 50000, cf), variants=[(flag,), (flag, "-DNDEBUG")])
    if r.violation is None:
        from run import Build
        r.engine_a("c13.cpp", [Build("g++-c++14-O0", "standalone", "all", [flag])], 2000 if r.quick else 20000)
    return ("at least one call answered and at least one unexpected", ["listeners return normally"])


def c30(r):
    from run import FRAMEWORKS, JOBS, REPO
    g30.check(r, REPO, FRAMEWORKS, 72 if r.quick else 600, 100 if r.quick else 700, JOBS)
    return ("at least 4 ways in which the case differs from the plainest installation", ["CMake 3.19 or later", "packages outside the searched places are named by FakeIt_DIR"])


CHECKS = {k.upper(): v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "c" and k[1:].isdigit()}
TECHNIQUE = {k: BY_PROGRAM for k in ("C07", "C08", "C09", "C10", "C17", "C18", "C25", "C28")}
TECHNIQUE["C11"] = "stateful property-based testing of histories against a hand-written twin object, and " + BY_PROGRAM
TECHNIQUE["C22"] = "property-based testing inside each test framework (five through stand-in assertion headers): generated histories, the failures recorded by the framework are compared with a model of the verdicts and with the message of the event"
TECHNIQUE["C24"] = "differential property-based testing: the same generated histories are run in builds for all compilers, standards and optimisation levels and their complete logs compared; differences are shrunk"
TECHNIQUE["C23"] = "differential property-based testing: the same generated histories are run with the sources, with freshly generated and with the shipped single headers and their complete logs compared; adapters of all single headers are tested inside the frameworks"
TECHNIQUE["C27"] = "program generation (property-based): random statements with exactly one fault, and the same statements corrected, are compiled; the oracle is which of the two the compiler has to accept"
TECHNIQUE["C29"] = "model-based property-based testing with process isolation: generated histories, unexpected calls are made in a child process and its end and notifications compared with a model"
TECHNIQUE["C30"] = "property-based testing of the build files: generated installations, relocations, version requests and consumer projects are carried out with CMake (unprivileged, in a scratch directory) and compared with a model of what a consumer must find; failing cases are reduced"
NOTE = {}
