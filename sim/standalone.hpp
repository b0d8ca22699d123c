// Where the simulator is built with the single header of another configuration: that configuration's framework is a
// stand-in that is never reached, and reports end as the standalone configuration ends them.
#pragma once
#include <exception>
#include <string>
#ifdef SIM_CONFIGURATION
#include "frameworks/frameworks.hpp"
#endif
#ifdef SIM_STANDARD
// The library as it is for an older language standard than this simulator is written in.
#include <bits/stdc++.h>
#pragma push_macro("__cplusplus")
#undef __cplusplus
#define __cplusplus SIM_STANDARD
#include <fakeit.hpp>
#pragma pop_macro("__cplusplus")
#else
#include <fakeit.hpp>
#endif

#ifdef SIM_CONFIGURATION
namespace standalone {
    struct Ended : std::exception {
        std::string text;
        int at;
        Ended(const std::string &t, int l) : text(t), at(l) {}
        const char *what() const noexcept override { return text.c_str(); }
        int line() const { return at; }
    };
    struct SequenceVerificationException : Ended { using Ended::Ended; };
    struct NoMoreInvocationsVerificationException : Ended { using Ended::Ended; };
    struct Adapter : fakeit::EventHandler {
        fakeit::DefaultEventFormatter own;
        fakeit::EventFormatter *formatter = &own;
        template<class E> std::string text(const E &e) { return std::string(e.file()) + ":" + std::to_string(e.line()) + ": " + formatter->format(e); }
        void handle(const fakeit::UnexpectedMethodCallEvent &e) override { throw fakeit::UnexpectedMethodCallException(formatter->format(e)); }
        void handle(const fakeit::SequenceVerificationEvent &e) override { throw SequenceVerificationException(text(e), e.line()); }
        void handle(const fakeit::NoMoreInvocationsVerificationEvent &e) override { throw NoMoreInvocationsVerificationException(text(e), e.line()); }
    };
}
#else
namespace standalone {
    using fakeit::SequenceVerificationException;
    using fakeit::NoMoreInvocationsVerificationException;
}
#endif
