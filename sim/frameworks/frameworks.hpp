// Stand-ins for the testing frameworks: what the bundled configurations use of them, each failure recorded, left the way
// the framework leaves it (by an exception of its own or by returning).  One of CONF_... is defined.
#pragma once
#include <string>
#include <stdexcept>

struct Failure {
    std::string via, file, message, expression;
    int line = 0;
    bool fatal = true;
    bool operator==(const Failure &o) const { return via == o.via && file == o.file && message == o.message && expression == o.expression && line == o.line && fatal == o.fatal; }
    std::string text() const { return "{" + via + " at [" + file + "]:" + std::to_string(line) + (fatal ? " fatal" : "") + " expression [" + expression + "] message [" + message + "]}"; }
};
void frameworkFailure(const Failure &f);
inline Failure failure(const char *via, const std::string &file, int line, const std::string &message, bool fatal = true) { Failure f; f.via = via; f.file = file; f.line = line; f.message = message; f.fatal = fatal; return f; }

#if defined(CONF_gtest)
namespace testing {
    struct TestPartResult { enum Type { kSuccess, kNonFatalFailure, kFatalFailure, kSkip }; };
    struct Message {};
    namespace internal {
        struct AssertHelper {
            TestPartResult::Type type; const char *file; int line; std::string message;
            AssertHelper(TestPartResult::Type t, const char *f, int l, const char *m) : type(t), file(f), line(l), message(m) {}
            void operator=(const Message &) const { if (type != TestPartResult::kSuccess) frameworkFailure(failure("gtest", file, line, message, type == TestPartResult::kFatalFailure)); }
        };
    }
}
#define GTEST_MESSAGE_AT_(file, line, message, result_type) ::testing::internal::AssertHelper(result_type, file, line, message) = ::testing::Message()
#define GTEST_MESSAGE_(message, result_type) GTEST_MESSAGE_AT_(__FILE__, __LINE__, message, result_type)
#define GTEST_FATAL_FAILURE_(message) return GTEST_MESSAGE_(message, ::testing::TestPartResult::kFatalFailure)
#define GTEST_NONFATAL_FAILURE_(message) GTEST_MESSAGE_(message, ::testing::TestPartResult::kNonFatalFailure)

#elif defined(CONF_catch) || defined(CONF_catch_old)
namespace Catch {
    struct TestFailureException {};
    struct SourceLineInfo { const char *file; std::size_t line; SourceLineInfo(const char *f, std::size_t l) : file(f), line(l) {} };
    struct ResultWas { enum OfType { Unknown = -1, Ok = 0, Info = 1, Warning = 2, FailureBit = 0x10, ExpressionFailed = FailureBit | 1, ExplicitFailure = FailureBit | 2, ThrewException = FailureBit | 0x100 }; };
    struct ResultDisposition { enum Flags { Normal = 1, ContinueOnFailure = 2, FalseTest = 4, SuppressFail = 8 }; };
    struct AssertionHandler {
        std::string macro, expression; SourceLineInfo at; int disposition; bool failed = false, completed = false;
        AssertionHandler(const std::string &m, const SourceLineInfo &l, const std::string &e, ResultDisposition::Flags d) : macro(m), expression(e), at(l), disposition(d) {}
        ~AssertionHandler() { if (!completed) frameworkFailure(failure("assertion not completed", at.file, (int) at.line, "")); }
        void handleMessage(ResultWas::OfType t, const std::string &message) {
            failed = (t & ResultWas::FailureBit) != 0;
            Failure f = failure(t == ResultWas::ExplicitFailure ? "catch explicit" : t == ResultWas::ExpressionFailed ? "catch expression" : "catch", at.file, (int) at.line, message, disposition == ResultDisposition::Normal);
            f.expression = expression;
            if (failed) frameworkFailure(f);
        }
        void handleUnexpectedInflightException() { frameworkFailure(failure("catch unexpected exception", at.file, (int) at.line, "")); }
        void complete() { completed = true; if (failed && disposition == ResultDisposition::Normal) throw TestFailureException(); }
    };
}
#define INTERNAL_CATCH_TRY try
#define INTERNAL_CATCH_CATCH(handler) catch (...) { handler.handleUnexpectedInflightException(); }
#define CATCH_INTERNAL_SUPPRESS_PARENTHESES_WARNINGS
#ifdef CONF_catch
#define CATCH_INTERNAL_START_WARNINGS_SUPPRESSION
#define CATCH_INTERNAL_STOP_WARNINGS_SUPPRESSION
#else
#define CATCH_INTERNAL_UNSUPPRESS_PARENTHESES_WARNINGS
#endif

#elif defined(CONF_boost) || defined(CONF_boost_old)
#ifdef CONF_boost
#define BOOST_VERSION 108300
#else
#define BOOST_VERSION 105800
#endif
namespace boost {
    struct execution_aborted {};
    namespace unit_test {
        struct lazy_ostream {
            std::string text;
            static lazy_ostream instance() { return lazy_ostream(); }
            lazy_ostream operator<<(const std::string &s) const { lazy_ostream r; r.text = text + s; return r; }
        };
    }
    namespace test_tools { namespace tt_detail {
        enum tool_level { WARN, CHECK, REQUIRE, PASS };
        enum check_type { CHECK_PRED, CHECK_MSG, CHECK_EQUAL };
        inline bool record(bool passed, const unit_test::lazy_ostream &descr, const std::string &file, std::size_t line, tool_level tl, check_type ct) {
            if (passed || tl == PASS) return true;
            if (tl != WARN) frameworkFailure(failure(ct == CHECK_MSG ? "boost message" : "boost", file, (int) line, descr.text, tl == REQUIRE));
            if (tl == REQUIRE) throw execution_aborted();
            return false;
        }
        inline bool report_assertion(bool passed, const unit_test::lazy_ostream &descr, const std::string &file, std::size_t line, tool_level tl, check_type ct, std::size_t, ...) { return record(passed, descr, file, line, tl, ct); }
        inline bool check_impl(bool passed, const unit_test::lazy_ostream &descr, const std::string &file, std::size_t line, tool_level tl, check_type ct, std::size_t, ...) { return record(passed, descr, file, line, tl, ct); }
    } }
}
#define BOOST_PP_IF(cond, t, f) t
#define BOOST_TEST_LAZY_MSG(M) (::boost::unit_test::lazy_ostream::instance() << M)

#elif defined(CONF_cute)
namespace cute {
    struct test_failure {
        std::string reason, filename; int lineno;
        test_failure(const std::string &r, const char *f, int line) : reason(r), filename(f), lineno(line) {}
        const char *what() const { return reason.c_str(); }
    };
}

#elif defined(CONF_doctest)
namespace doctest { struct TestFailureException {}; }
#define DOCTEST_ADD_FAIL_CHECK_AT(file, line, ...) frameworkFailure(failure("doctest", file, line, __VA_ARGS__, false))
#define DOCTEST_ADD_FAIL_AT(file, line, ...) do { frameworkFailure(failure("doctest", file, line, __VA_ARGS__, true)); throw doctest::TestFailureException(); } while (0)
#define DOCTEST_ADD_MESSAGE_AT(file, line, ...) ((void) 0)

#elif defined(CONF_mettle)
namespace mettle { struct expectation_error : std::runtime_error { using std::runtime_error::runtime_error; }; }

#elif defined(CONF_mstest)
namespace Microsoft { namespace VisualStudio { namespace CppUnitTestFramework {
    struct AssertFailedException {};
    struct __LineInfo { const wchar_t *file; const char *function; int line; __LineInfo(const wchar_t *f, const char *fn, int l) : file(f), function(fn), line(l) {} };
    struct Assert {
        static void Fail(const wchar_t *message = nullptr, const __LineInfo * = nullptr) {
            std::wstring w = message ? message : L"";
            frameworkFailure(failure("mstest", "", 0, std::string(w.begin(), w.end())));
            throw AssertFailedException();
        }
    };
} } }

#elif defined(CONF_nunit)
#define gcnew new
struct String { std::string s; explicit String(const char *t) : s(t) {} };
namespace NUnit { namespace Framework {
    struct AssertionException {};
    struct Assert { static void Fail(String *m) { frameworkFailure(failure("nunit", "", 0, m->s)); delete m; throw AssertionException(); } };
} }

#elif defined(CONF_qtest)
namespace QTest { inline void qFail(const char *message, const char *, int) { frameworkFailure(failure("qtest", "", 0, message)); } }
#define QFAIL(message) do { QTest::qFail(message, __FILE__, __LINE__); return; } while (0)
#endif
