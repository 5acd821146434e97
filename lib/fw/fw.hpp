// One interface to all test frameworks: runs a statement inside the framework and returns the failures it recorded.
// FW_<NAME> selects the framework.
#pragma once
#if defined(FW_NUNIT)
#include "nunit_standin.h"
#elif defined(FW_METTLE)
#include "mettle_standin.h"
#elif defined(FW_TPUNIT)
#include <exception>
#include <stdexcept>
#include <string>
#elif defined(FW_BOOST)
#define BOOST_TEST_NO_MAIN
#define BOOST_TEST_ALTERNATIVE_INIT_API
#ifndef BOOST_TEST_DYN_LINK
#define BOOST_TEST_DYN_LINK
#endif
#include <boost/test/unit_test.hpp>
#include <boost/test/execution_monitor.hpp>
#include <boost/test/unit_test_log_formatter.hpp>
#elif defined(FW_CATCH)
#include <catch2/catch_all.hpp>
#elif defined(FW_DOCTEST)
#if defined(FW_SECOND)
#undef DOCTEST_CONFIG_IMPLEMENT
#elif !defined(DOCTEST_CONFIG_IMPLEMENT)
#define DOCTEST_CONFIG_IMPLEMENT
#endif
#include <doctest.h>
#elif defined(FW_GTEST)
#include <gtest/gtest.h>
#include <gtest/gtest-spi.h>
#endif
#include "fakeit.hpp"

#ifndef FW_SECOND
#include "pbt.hpp"

namespace fw {

struct Failure {
    std::string file; long line; std::string text; bool located;
};
struct Captured {
    std::vector<Failure> failures;
    bool escaped;          // an exception left the statement
    std::string exception; // what it was, when it is not the way the framework itself ends a test
};

inline std::vector<Failure> &sink() { static std::vector<Failure> s; return s; }

typedef int (*Engine)(int, char **);
inline Engine &engine() { static Engine e; return e; }
inline int &argCount() { static int n; return n; }
inline char **&args() { static char **a; return a; }
inline int &status() { static int s = 2; return s; }
inline void runEngine() { status() = engine()(argCount(), args()); }

#if defined(FW_GTEST)
const bool Locates = true, Throws = false;
inline void setUp() {}
template<class F> void inside(F f, Captured &) {
    testing::TestPartResultArray results;
    {
        testing::ScopedFakeTestPartResultReporter reporter(testing::ScopedFakeTestPartResultReporter::INTERCEPT_ONLY_CURRENT_THREAD, &results);
        struct Take {
            testing::TestPartResultArray &r;
            ~Take() {
                for (int i = 0; i < r.size(); i++) if (r.GetTestPartResult(i).failed()) {
                    auto &p = r.GetTestPartResult(i);
                    sink().push_back(Failure{p.file_name() ? p.file_name() : "", p.line_number(), p.message(), true});
                }
            }
        } take{results};
        f();
    }
}
inline int start() {
    int n = 1; char name[] = "harness"; char *v[] = {name, nullptr};
    testing::InitGoogleTest(&n, v);
    runEngine();
    return status();
}
#elif defined(FW_CATCH)
const bool Locates = true, Throws = true;
struct Listener : Catch::EventListenerBase {
    using Catch::EventListenerBase::EventListenerBase;
    void assertionEnded(Catch::AssertionStats const &s) override {
        if (!s.assertionResult.isOk()) {
            auto where = s.assertionResult.getSourceInfo();
            sink().push_back(Failure{where.file, (long) where.line, std::string(s.assertionResult.getMessage()), true});
        }
    }
};
CATCH_REGISTER_LISTENER(Listener)
TEST_CASE("engine") { runEngine(); }
template<class F> void inside(F f, Captured &c) {
    try { f(); } catch (Catch::TestFailureException &) { c.escaped = true; }
}
inline int start() {
    Catch::Session s;
    const char *v[] = {"harness", "-o", "/dev/null", "-r", "compact"};
    s.applyCommandLine(5, v);
    s.run();
    return status();
}
#elif defined(FW_DOCTEST)
const bool Locates = true, Throws = false;
struct Listener : doctest::IReporter {
    explicit Listener(const doctest::ContextOptions &) {}
    void report_query(const doctest::QueryData &) override {}
    void test_run_start() override {}
    void test_run_end(const doctest::TestRunStats &) override {}
    void test_case_start(const doctest::TestCaseData &) override {}
    void test_case_reenter(const doctest::TestCaseData &) override {}
    void test_case_end(const doctest::CurrentTestCaseStats &) override {}
    void test_case_exception(const doctest::TestCaseException &) override {}
    void subcase_start(const doctest::SubcaseSignature &) override {}
    void subcase_end() override {}
    void log_assert(const doctest::AssertData &a) override { if (a.m_failed) sink().push_back(Failure{a.m_file, a.m_line, a.m_expr, true}); }
    void log_message(const doctest::MessageData &m) override {
        if (m.m_severity != doctest::assertType::is_warn) sink().push_back(Failure{m.m_file, m.m_line, m.m_string.c_str(), true});
    }
    void test_case_skipped(const doctest::TestCaseData &) override {}
};
REGISTER_LISTENER("sink", 1, Listener);
TEST_CASE("engine") { runEngine(); }
template<class F> void inside(F f, Captured &c) {
    try { f(); } catch (doctest::detail::TestFailureException &) { c.escaped = true; }
}
inline int start() {
    doctest::Context c;
    c.setOption("no-breaks", true);
    c.setOption("out", "/dev/null");
    c.setOption("minimal", true);
    c.run();
    return status();
}
#elif defined(FW_BOOST)
const bool Locates = true, Throws = true;
struct Log : boost::unit_test::unit_test_log_formatter {
    std::string file, text; long line; bool bad;
    typedef boost::unit_test::const_string cs;
    void log_start(std::ostream &, boost::unit_test::counter_t) override {}
    void log_finish(std::ostream &) override {}
    void log_build_info(std::ostream &, bool) override {}
    void test_unit_start(std::ostream &, boost::unit_test::test_unit const &) override {}
    void test_unit_finish(std::ostream &, boost::unit_test::test_unit const &, unsigned long) override {}
    void test_unit_skipped(std::ostream &, boost::unit_test::test_unit const &, cs) override {}
    void log_exception_start(std::ostream &, boost::unit_test::log_checkpoint_data const &, boost::execution_exception const &) override {}
    void log_exception_finish(std::ostream &) override {}
    void log_entry_start(std::ostream &, boost::unit_test::log_entry_data const &d, log_entry_types t) override {
        bad = t == BOOST_UTL_ET_ERROR || t == BOOST_UTL_ET_FATAL_ERROR;
        file = d.m_file_name; line = (long) d.m_line_num; text.clear();
    }
    void log_entry_value(std::ostream &, cs v) override { text.append(v.begin(), v.end()); }
    void log_entry_finish(std::ostream &) override { if (bad) sink().push_back(Failure{file, line, text, true}); }
    void entry_context_start(std::ostream &, boost::unit_test::log_level) override {}
    void log_entry_context(std::ostream &, boost::unit_test::log_level, cs) override {}
    void entry_context_finish(std::ostream &, boost::unit_test::log_level) override {}
};
template<class F> void inside(F f, Captured &c) {
    try { f(); }
    catch (boost::execution_aborted &) { c.escaped = true; }
    catch (std::string &s) { c.escaped = true; sink().push_back(Failure{"", 0, s, false}); }
}
inline bool init() {
    boost::unit_test::unit_test_log.set_formatter(new Log);
    boost::unit_test::framework::master_test_suite().add(BOOST_TEST_CASE(&runEngine));
    return true;
}
inline int start() {
    char a[] = "harness", b[] = "--catch_system_errors=no", d[] = "--report_level=no", e[] = "--color_output=no";
    char *v[] = {a, b, d, e, nullptr};
    boost::unit_test::unit_test_main(&init, 4, v);
    return status();
}
#else
#if defined(FW_QTEST)
const bool Locates = false, Throws = false;
#elif defined(FW_MSTEST) || defined(FW_NUNIT)
const bool Locates = false, Throws = true;
#else
const bool Locates = true, Throws = true;
#endif
template<class F> void inside(F f, Captured &c) {
#if defined(FW_QTEST)
    QTest::failures().clear();
    struct Take { ~Take() { for (auto &s : QTest::failures()) sink().push_back(Failure{"", 0, s, false}); } } take;
#endif
    try { f(); }
#if defined(FW_STANDALONE)
    catch (fakeit::VerificationException &e) { c.escaped = true; sink().push_back(Failure{e.file(), e.line(), e.what(), true}); }
    catch (fakeit::UnexpectedMethodCallException &e) { c.escaped = true; sink().push_back(Failure{"", 0, e.what(), false}); }
#elif defined(FW_TPUNIT)
    catch (fakeit::TpUnitAdapter::AssertionException &e) { c.escaped = true; sink().push_back(Failure{"", 0, e.what(), false}); }
#elif defined(FW_CUTE)
    catch (cute::test_failure &e) { c.escaped = true; sink().push_back(Failure{e.filename, e.lineno, e.reason, true}); }
    catch (std::string &s) { c.escaped = true; sink().push_back(Failure{"", 0, s, false}); }
#elif defined(FW_METTLE)
    catch (mettle::expectation_error &e) { c.escaped = true; sink().push_back(Failure{"", 0, e.what(), false}); }
#elif defined(FW_MSTEST)
    catch (Microsoft::VisualStudio::CppUnitTestFramework::AssertFailed &e) { c.escaped = true; sink().push_back(Failure{"", 0, std::string(e.message.begin(), e.message.end()), false}); }
#elif defined(FW_NUNIT)
    catch (NUnit::Framework::AssertionException &e) { c.escaped = true; sink().push_back(Failure{"", 0, e.message, false}); }
#elif defined(FW_QTEST)
    catch (int) { throw; }
#else
#error framework
#endif
    (void) c;
}
inline int start() { runEngine(); return status(); }
#endif

template<class F> Captured capture(F f) {
    Captured c; c.escaped = false;
    sink().clear();
    try { inside(f, c); }
    catch (pbt::Failure &) { throw; }
    catch (fakeit::UnexpectedMethodCallException &) { c.escaped = true; c.exception = "UnexpectedMethodCallException"; }
    catch (std::exception &e) { c.escaped = true; c.exception = e.what(); }
    catch (...) { c.escaped = true; c.exception = "something else"; }
    c.failures.swap(sink());
    return c;
}

}

#define FW_MAIN(ID, FN) \
    static int fwEngine(int argc, char **argv) { return pbt::mainImpl(ID, FN, argc, argv); } \
    int main(int argc, char **argv) { fw::argCount() = argc; fw::args() = argv; fw::engine() = fwEngine; return fw::start(); }
#endif
