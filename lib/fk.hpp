// Shared by the harnesses: FakeIt through its public header plus helpers that turn the result of a
// call or verification into text. Nothing here looks at library internals.
#pragma once
#include "fakeit.hpp"
#include "pbt.hpp"
#include <memory>
#include <string>
#include <vector>

using namespace fakeit;
using pbt::cat;

struct UserError {
    int code;
    explicit UserError(int c) : code(c) {}
};

// Result of running f (which returns text) as text; exceptions become text too.
template<class F> std::string outcome(F f) {
    try {
        return f();
    } catch (const fakeit::UnexpectedMethodCallException &) {
        return "unexpected";
    } catch (const fakeit::SequenceVerificationException &) {
        return "verification-failed";
    } catch (const fakeit::NoMoreInvocationsVerificationException &) {
        return "no-more-failed";
    } catch (UserError &e) {   // what becomes of a caught exception does not concern the next one
        std::string t = cat("throw UserError ", e.code);
        e.code += 1000000;
        return t;
    } catch (std::string &s) {
        std::string t = cat("throw string ", s);
        s = "caught";
        return t;
    } catch (int &i) {
        std::string t = cat("throw int ", i);
        i += 1000000;
        return t;
    } catch (const std::invalid_argument &e) {
        return "invalid_argument";
    } catch (const std::exception &e) {
        return cat("std::exception ", e.what());
    }
}
