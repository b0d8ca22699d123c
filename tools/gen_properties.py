#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  Kept as a script so that the statements are edited in one place."""
import json, os
P = []
def at(path):
    return path if path.startswith(("config/", "single_header/", "generate_")) else "include/" + path
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=[at(f) for f in files],
                               state=[dict(name=a, meaning=b, where=at(c)) for a, b, c in state],
                               mechanism=[dict(name=a, where=at(b)) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

prop("C01", "A call is answered by the newest accepting stubbing or reported as unexpected",
 "Every call on a mocked method is answered by the most recently completed stubbing of that method, on that mock, whose argument condition accepts the arguments of the call. "
 "If no stubbing accepts it the call is reported as an unexpected call and fails with the unexpected-call exception; it is never answered by another method's or another mock's stubbing. "
 "This holds after any history of stubbings, calls, failed calls, verifications and nested calls, with any number of methods, stubbings and argument kinds.",
 ["histories", "inputs", "fault_sequences"],
 "all interleavings of stubbing phrases (default, Using, Matching, direct-argument conditions), calls with any arguments, re-entrant calls made from stubbed actions and failed calls, on mocks of several types at once",
 "Tests fix one or two stubbings and a handful of calls each; they never mix many stubbings, methods, re-entrant calls and thrown exceptions in one history.",
 ["fakeit/RecordedMethodBody.hpp", "mockutils/DynamicProxy.hpp", "mockutils/MethodProxyCreator.hpp", "fakeit/invocation_matchers.hpp", "fakeit/MatchersCollector.hpp"],
 [("newest-first scan of the stubbings of a method", "fakeit/RecordedMethodBody.hpp: getInvocationHandlerForActualArgs"),
  ("method id to handler lookup", "mockutils/DynamicProxy.hpp: InvocationHandlers"),
  ("per-argument matching", "fakeit/invocation_matchers.hpp")],
 [("stubbings", "ordered stubbings of one method", "fakeit/RecordedMethodBody.hpp: _invocationHandlers")],
 ["return value or exception of the call", "identity and arguments of the action that ran"])

prop("C02", "Actions of a stubbing are used in order, each exactly its stated number of times",
 "The actions given to one stubbing answer the calls that the stubbing accepts strictly in the order written, each exactly as many times as stated (once by default), and an action stated as 'always' answers all later calls. "
 "An action counts as used once per call that starts it, whether it returns, throws or itself calls the same method again. "
 "When the actions are used up the next accepted call is an unexpected call; it is not answered by an older stubbing.",
 ["histories", "fault_sequences"],
 "all action lists (Return, Throw, Do, quantities, multi-value forms, assignment, always forms), all interleavings with calls, exceptions thrown by actions and re-entrant calls made by actions",
 "Tests consume short lists straight through; no test makes an action re-enter its own method, mixes throwing and returning actions with quantities, or continues after exhaustion.",
 ["fakeit/ActionSequence.hpp", "fakeit/Action.hpp", "fakeit/StubbingProgress.hpp", "fakeit/Quantifier.hpp"],
 [("front action of the list is invoked and dropped when used up", "fakeit/ActionSequence.hpp: handleMethodInvocation"),
  ("per-action countdown", "fakeit/Action.hpp: Repeat"),
  ("sentinel that ends every list", "fakeit/ActionSequence.hpp: NoMoreRecordedAction")],
 [("remaining actions", "actions not used up yet", "fakeit/ActionSequence.hpp: _recordedActions")],
 ["sequence of return values, exceptions and action executions"])

prop("C03", "Every accepted call is recorded exactly once, in call order, across all mocks",
 "Each call that some stubbing accepted appears exactly once in the recorded history of its mock, whether its action returned, threw or the stubbing was already used up; a call no stubbing accepted is not recorded. "
 "The history of any set of mocks is ordered by the time the calls were made, a call preceding the calls made while it was running. "
 "Nothing except clearing, resetting or destroying the mock removes or alters a recorded call.",
 ["histories", "fault_sequences"],
 "all interleavings of calls on several mocks, nested calls, calls whose action throws, exhausted and unmatched calls, calls made during stack unwinding, and long histories",
 "Tests look at histories of a few calls on one or two mocks, never at nested or throwing calls mixed across mocks nor at hundreds of calls.",
 ["fakeit/RecordedMethodBody.hpp", "fakeit/Invocation.hpp", "fakeit/SortInvocations.hpp", "fakeit/ActualInvocationsSource.hpp", "fakeit/MockImpl.hpp"],
 [("record appended before the action runs", "fakeit/RecordedMethodBody.hpp: handleMethodInvocation"),
  ("process-wide call ordinal", "fakeit/Invocation.hpp: nextInvocationOrdinal"),
  ("merge and sort of several histories", "fakeit/SortInvocations.hpp: sortByInvocationOrder")],
 [("history", "recorded calls of one method", "fakeit/RecordedMethodBody.hpp: _actualInvocations")],
 ["actual sequence carried by a failing verification event", "verification verdicts"])

prop("C04", "A verification passes exactly when its pattern occurs as often as required",
 "A verification counts, left to right and without overlap, the occurrences of its pattern in the calls recorded on the sources it looks at, in call order; elements joined with + or * must be adjacent, elements separated by commas may have other calls between them. "
 "It passes exactly when that count satisfies the stated requirement (exactly n, at least n, never, any; at least once by default), where 'at least 0' and 'any' always pass. "
 "By default it looks at all calls of the mocks named in the pattern; with explicit sources only at those. "
 "A negative required number and a repetition of less than once are refused with std::invalid_argument, and nothing is verified, marked or reported by that.",
 ["histories", "inputs"],
 "all recorded histories over several mocks and methods, all patterns built from methods, argument conditions, concatenation, repetition and comma lists, all requirements and source selections",
 "Tests verify a few hand-written sequences; the space of (history, pattern, requirement, sources) is never explored and no test compares with an independent definition of the count.",
 ["fakeit/MatchAnalysis.hpp", "fakeit/SequenceVerificationExpectation.hpp", "fakeit/SequenceVerificationProgress.hpp", "fakeit/Sequence.hpp", "fakeit/UsingProgress.hpp", "fakeit/VerifyFunctor.hpp"],
 [("greedy left-to-right match", "fakeit/MatchAnalysis.hpp: countMatches"),
  ("comparison with the requirement", "fakeit/SequenceVerificationExpectation.hpp: VerifyExpectation")],
 [], ["verdict as bool conversion, raised event or thrown exception"])

prop("C05", "Verification marks exactly the calls it matched, and only when it passes",
 "A passing verification marks as verified exactly the calls that belong to the complete pattern occurrences it counted, and a failing one marks none. "
 "'No other invocations' passes exactly when every call recorded on its sources has been marked by some passed verification, and when it fails it reports the unmarked calls in call order. "
 "A verification restricted to unverified calls behaves as if the marked calls had not been made.",
 ["histories", "fault_sequences"],
 "all sequences of passing, failing and interrupted verifications with overlapping patterns, interleaved with further calls on several mocks",
 "Tests use one verification followed by one no-other-invocations check; marks left by partial, failed or repeated verifications are not examined.",
 ["fakeit/SequenceVerificationExpectation.hpp", "fakeit/MatchAnalysis.hpp", "fakeit/VerifyNoOtherInvocationsVerificationProgress.hpp", "fakeit/UnverifiedFunctor.hpp", "fakeit/ActualInvocationsSource.hpp"],
 [("marks applied after the verdict", "fakeit/SequenceVerificationExpectation.hpp: markAsVerified"),
  ("collection of matched calls", "fakeit/MatchAnalysis.hpp: findNextMatch"),
  ("filter of unverified calls", "fakeit/ActualInvocationsSource.hpp: UnverifiedInvocationsSource")],
 [("verified mark", "call has been matched by a passed verification", "fakeit/Invocation.hpp: _isVerified")],
 ["no-other-invocations verdict and event", "verified flag of the calls carried by events", "verdict of verifications over unverified calls"])

prop("C06", "An interrupted phrase has no effect; a completed one takes effect once",
 "If an exception leaves the scope of a stubbing or verification phrase before the phrase is complete, the phrase has no effect: no behaviour is installed, nothing is marked and no failure is reported, and the interrupting exception propagates unchanged. "
 "A phrase that completes takes effect exactly once, when its last copy goes out of scope, however often it was copied or held. "
 "Converting a verification to bool evaluates it at that point, reports no failure and suppresses the later evaluation.",
 ["fault_sequences", "histories"],
 "all points inside a phrase at which an exception may be thrown (argument evaluation, copying of stubbed values, conditions, later steps of the chain), held and copied phrases, and all surrounding histories including phrases inside stubbed actions",
 "Two tests throw at one fixed point each; none varies the interruption point, the phrase or the history before and after it.",
 ["fakeit/WhenFunctor.hpp", "fakeit/SequenceVerificationExpectation.hpp", "fakeit/SequenceVerificationProgress.hpp", "fakeit/VerifyNoOtherInvocationsVerificationProgress.hpp", "fakeit/MethodMockingContext.hpp", "fakeit/FakeitExceptions.hpp"],
 [("commit on destruction unless unwinding", "fakeit/WhenFunctor.hpp: StubbingChange"),
  ("evaluate on destruction unless unwinding or already evaluated", "fakeit/SequenceVerificationExpectation.hpp"),
  ("uncommitted phrase frees what it built", "fakeit/MethodMockingContext.hpp: Implementation")],
 [], ["later call outcomes, verdicts, marks and events compared with the phrase left out"])

prop("C07", "Each failure is reported once to each listener in order, then to the adapter",
 "Every failing verification and every unexpected call is reported exactly once to each registered listener, in registration order, and then exactly once to the testing-framework adapter in force; passing operations and bool-converted verifications report nothing. "
 "The report, and the message made from it, states the true kind, required and actual counts, the calls considered in call order, the unverified ones among them, the offending call, and the source location of the verification. "
 "An unexpected call always ends with an exception at the caller even if the adapter returns, and a custom formatter in force provides the message text.",
 ["histories", "configurations", "fault_sequences"],
 "all listener sets, adapters (default, throwing, non-throwing), formatter settings and their changes over time, over all histories of failing and passing operations including failures inside stubbed actions",
 "Tests examine single reports with one adapter; repeated failures, several listeners, adapter changes and failures nested in actions are not covered.",
 ["fakeit/FakeitContext.hpp", "fakeit/DefaultFakeit.hpp", "fakeit/FakeitEvents.hpp", "fakeit/RecordedMethodBody.hpp", "fakeit/MockImpl.hpp", "fakeit/SequenceVerificationExpectation.hpp"],
 [("listeners then adapter", "fakeit/FakeitContext.hpp: handle, fireEvent"),
  ("adapter and formatter override", "fakeit/DefaultFakeit.hpp"),
  ("exception after the report", "fakeit/RecordedMethodBody.hpp: handleMethodInvocation")],
 [("listeners", "registered event handlers in order", "fakeit/FakeitContext.hpp: _eventListeners")],
 ["event handler callbacks", "exception type, text, file and line"])

prop("C08", "Reset returns a mock to its initial state; clearing removes only the history",
 "After a reset a mock behaves in every respect as if newly created: no stubbings, no history, stubbed data members gone, methods of a wrapped object answering originally, and every kind of stubbing, the destructor included, can be installed again. "
 "Clearing the invocation history removes every recorded call of that mock and nothing else: stubbings, how far their actions are used up and stubbed data members are kept. "
 "Neither affects any other mock.",
 ["histories"],
 "all histories before and after one or more resets and clears, on fake and spying mocks, with destructor and data-member stubbing, including clearing from inside a stubbed action",
 "Each test resets or clears once after one call; re-stubbing of every kind after a reset, destructor stubbing after a reset and partially used action lists across a clear are not covered.",
 ["fakeit/MockImpl.hpp", "mockutils/DynamicProxy.hpp", "fakeit/Mock.hpp", "mockutils/FakeObject.hpp", "fakeit/RecordedMethodBody.hpp"],
 [("reset of the proxy tables and data area", "mockutils/DynamicProxy.hpp: Reset"),
  ("clear of the histories", "fakeit/MockImpl.hpp: clear")],
 [("method slots and ids", "which handler serves which virtual method", "mockutils/DynamicProxy.hpp: _methodMocks, _offsets")],
 ["call outcomes, verdicts and data members after the operation, compared with a new mock"])

prop("C09", "A spied object runs its own code faithfully and is restored when the mock goes",
 "On a mock wrapping a real object, a method that was never stubbed behaves exactly as the object's own, a spied method runs the object's own code once per call with the caller's arguments and passes on its result or exception while the call is recorded, and a stubbed method is answered by the stubbing also when the object's own code calls it virtually. "
 "Exceptions, nested and recursive calls leave spying in force. "
 "The object's data are never touched, and when the mock is reset or destroyed every method is the object's own again.",
 ["histories", "fault_sequences"],
 "all histories of spying, stubbing and calling on wrapped objects with methods that keep state, call each other, recurse, throw and take in/out arguments, with further mocks created on the same object one after another",
 "Tests spy one method and call it a few times; exceptions out of spied code, recursion, mutual calls and restoration after them are not explored.",
 ["mockutils/DynamicProxy.hpp", "mockutils/Finally.hpp", "fakeit/SpyFunctor.hpp", "fakeit/SpyWithoutVerifyFunctor.hpp", "fakeit/MockImpl.hpp"],
 [("original slot swapped in for the duration of the call", "mockutils/DynamicProxy.hpp: createRaiiMethodSwapper"),
  ("original table put back on destruction", "mockutils/DynamicProxy.hpp: detach")],
 [("cloned virtual table", "table in force while the object is mocked", "mockutils/DynamicProxy.hpp: _cloneVt")],
 ["result, exception, object state and log of original executions", "history of the mock"])

prop("C10", "Mocks do not influence one another",
 "What a mock answers, records, verifies and reports depends only on the operations performed on that mock, whatever other mocks of the same or other types are created, stubbed, called, verified, reset, cleared or destroyed in between. "
 "The only thing mocks share is the relative order of their calls, used by verifications that name several mocks.",
 ["histories"],
 "all interleavings of complete lives of several mocks of equal and different types, fake and spying, including nested use from each other's actions",
 "Tests that use two mocks do so for ordering only; no test compares the life of a mock alone with the same life among others.",
 ["fakeit/MockImpl.hpp", "mockutils/DynamicProxy.hpp", "mockutils/MethodProxyCreator.hpp", "fakeit/DomainObjects.hpp", "mockutils/gcc/VirtualTable.hpp"],
 [("per-mock cloned virtual table with cookies leading back to the mock", "mockutils/gcc/VirtualTable.hpp"),
  ("method identity unique per mock", "fakeit/DomainObjects.hpp: MethodInfo::nextMethodOrdinal")],
 [], ["log of each mock alone versus its part of the joint log"])

prop("C11", "Mocks confined to different threads work as if each thread ran alone",
 "If every mock is created, stubbed, called and verified by one thread only, then under every interleaving of the threads each thread observes exactly what it observes when run alone. "
 "After the threads have been joined, a verification over mocks of several threads sees every call of every thread exactly once, in an order that agrees with the order within each thread.",
 ["schedules"],
 "all interleavings, at the granularity of single memory accesses, of threads that each run a complete test case on their own mocks, including first uses of lazily created process-wide state",
 "The test suite is single-threaded.",
 ["fakeit/Invocation.hpp", "fakeit/DomainObjects.hpp", "mockutils/DefaultValue.hpp", "fakeit/SortInvocations.hpp", "fakeit/FakeitContext.hpp"],
 [("atomic ordinals", "fakeit/Invocation.hpp: nextInvocationOrdinal; fakeit/DomainObjects.hpp: nextMethodOrdinal"),
  ("guarded function-local statics", "mockutils/DefaultValue.hpp")],
 [("process-wide counters and default values", "the only state shared by mocks", "fakeit/Invocation.hpp, fakeit/DomainObjects.hpp, mockutils/DefaultValue.hpp")],
 ["per-thread log compared with the thread run alone", "joint history after join"])

prop("C12", "No memory is leaked, freed twice or used after being freed",
 "Over the whole life of any set of mocks and phrases, completed, failed or interrupted, each object the library creates or captures (stubbed values, actions, conditions, recorded arguments, exceptions, stubbed data members) is destroyed exactly once and not used afterwards, and after the last mock is destroyed nothing remains allocated. "
 "Recorded arguments and captured values stay alive as long as the mock can still use them. "
 "The object of a fake is released exactly once, also when user code deleted it before.",
 ["histories", "fault_sequences"],
 "all histories with exceptions thrown at any user callback (copying, conditions, actions, listeners), interrupted phrases, resets and clears inside and outside calls, and any destruction order, under allocators that reuse, quarantine or unmap freed memory",
 "The suite is run without leak or lifetime checking and does not inject exceptions.",
 ["fakeit/MethodMockingContext.hpp", "fakeit/RecordedMethodBody.hpp", "fakeit/ActionSequence.hpp", "mockutils/smart_ptr.hpp", "fakeit/MatchersCollector.hpp", "mockutils/DynamicProxy.hpp", "mockutils/FakeObject.hpp", "fakeit/MockImpl.hpp"],
 [("ownership of actions, conditions and records", "fakeit/RecordedMethodBody.hpp; fakeit/ActionSequence.hpp"),
  ("ownership hand-over at commit", "fakeit/MethodMockingContext.hpp: Implementation"),
  ("member order that keeps the fake alive while its proxy goes", "fakeit/MockImpl.hpp")],
 [], ["allocator state and life-cycle counts of tracked values at the end of each history", "writes and reads of freed memory"])

prop("C13", "Results do not depend on memory addresses or on the contents of fresh memory",
 "The same sequence of operations gives the same return values, exceptions, verdicts, reports and report texts wherever the allocator places objects and whatever the memory it returns contained before.",
 ["configurations", "histories"],
 "all placements of heap objects (ascending, descending, scattered, immediate reuse) and all initial contents of fresh and reused memory, over all histories",
 "Tests run once under the system allocator, whose placements hardly vary and whose fresh memory is mostly zero.",
 ["fakeit/SortInvocations.hpp", "fakeit/ActualInvocationsSource.hpp", "fakeit/MatchAnalysis.hpp", "mockutils/FakeObject.hpp", "mockutils/smart_ptr.hpp", "fakeit/SequenceVerificationExpectation.hpp"],
 [("order taken from ordinals although collected in a pointer-keyed set", "fakeit/SortInvocations.hpp"),
  ("explicit initialisation of members and data area", "mockutils/FakeObject.hpp: initializeDataMembersArea")],
 [], ["log of the same operations under different allocator behaviour"])

prop("C14", "Destroying a fake runs and records its stubbed destructor and nothing else",
 "Deleting a fake object, or destroying it through a smart pointer or an explicit destructor call, does nothing if the destructor is not stubbed; otherwise it runs the newest destructor stubbing's next action exactly once and is recorded as one call. "
 "The mock stays usable afterwards and destroys its object itself, once. "
 "This holds wherever the destructor stands among the virtual methods and also after resets. "
 "An object that is spied on is not destroyed while its destructor is stubbed or spied on: the call is recorded and answered in the same way. Stubbing the destructor of a class that has no virtual one is refused with an exception and changes nothing.",
 ["histories", "configurations"],
 "all histories of destructor stubbing, destruction in each form, verification, reset and further calls, for types whose virtual destructor is first, in the middle or last, alone and mixed with other stubbed methods",
 "Tests stub a destructor on one type, once, without resets or other methods involved.",
 ["mockutils/gcc/VirtualTable.hpp", "mockutils/DynamicProxy.hpp", "fakeit/MockImpl.hpp", "mockutils/VTUtils.hpp"],
 [("both destructor slots replaced", "mockutils/gcc/VirtualTable.hpp: setDtor, dtor"),
  ("reserved method id of the destructor", "mockutils/DynamicProxy.hpp: stubDtor")],
 [], ["executions of the stubbed action, history, and continued use of the mock"])

prop("C15", "Arguments are recorded as passed; reference and out arguments reach the caller",
 "A by-value argument is recorded with the value it had at the call and verifications keep seeing that value whatever the caller does to its own variable later; move-only arguments are taken over. "
 "Conditions and actions receive exactly the caller's arguments, in position; reference and pointer arguments refer to the caller's own objects, so that values set by an action (also by return-and-set) appear there and nowhere else. "
 "Returned values and references are exactly the stubbed ones.",
 ["inputs", "histories"],
 "all parameter kinds (values, const and mutable references, rvalue references, pointers, move-only values) in all positions, all argument values, later modifications by the caller, and all histories in between",
 "Tests check a few signatures with literal arguments and no later modification.",
 ["fakeit/ActualInvocation.hpp", "mockutils/TupleDispatcher.hpp", "mockutils/MethodProxyCreator.hpp", "fakeit/StubbingProgress.hpp", "mockutils/type_utils.hpp", "fakeit/argument_matchers.hpp"],
 [("arguments stored in a tuple by declared kind", "fakeit/ActualInvocation.hpp"),
  ("tuple unpacked into the action", "mockutils/TupleDispatcher.hpp"),
  ("assignment of out arguments", "fakeit/StubbingProgress.hpp: ParamWalker, ArgLocator")],
 [], ["arguments seen by actions and conditions, caller's variables after the call, verdicts over argument conditions"])

prop("C16", "User-code exceptions pass through unchanged and leave the mock consistent",
 "An exception thrown by an action, by an argument condition or while an argument is copied reaches the caller of the mocked method unchanged. "
 "If it was thrown before an action started, the call leaves no record and uses up nothing; if an action threw it, the call is recorded once and that action is used once. "
 "An exception thrown by a condition or listener during a verification likewise reaches the caller and marks nothing, and afterwards the mock and later phrases behave as if the failed operation had that effect only.",
 ["fault_sequences", "histories"],
 "all positions at which a condition, argument copy, comparison, action, listener or adapter throws, in calls, nested calls and verifications, followed by all continuations",
 "Only exceptions thrown by a stubbed Throw are tested; conditions, copies and comparisons never throw in the suite.",
 ["fakeit/RecordedMethodBody.hpp", "fakeit/ActionSequence.hpp", "mockutils/Finally.hpp", "fakeit/invocation_matchers.hpp", "fakeit/SequenceVerificationExpectation.hpp", "mockutils/DynamicProxy.hpp"],
 [("record kept by a shared pointer until appended", "fakeit/RecordedMethodBody.hpp: handleMethodInvocation"),
  ("consumption in a clean-up clause", "fakeit/ActionSequence.hpp")],
 [], ["exception type and payload at the caller, then outcomes of all later operations"])

prop("C17", "Running out of memory inside a mocked call does not damage the mock",
 "If an allocation fails while a mocked method is being called, the call ends with std::bad_alloc or with the result it would have had; the process is not terminated and no memory is lost or corrupted. "
 "Afterwards the history contains the call at most once, earlier calls and marks are unchanged, at most that call's own action has been used, spying and stubbing of every method stay in force, and other mocks are unaffected.",
 ["fault_sequences", "histories"],
 "every allocation inside every call as the failing one, single and repeated failures, on fake and spying mocks, over all histories",
 "No test makes an allocation fail.",
 ["fakeit/RecordedMethodBody.hpp", "fakeit/ActionSequence.hpp", "mockutils/Finally.hpp", "mockutils/DynamicProxy.hpp"],
 [("record owned before it is appended", "fakeit/RecordedMethodBody.hpp: handleMethodInvocation"),
  ("slot restored by a clean-up object", "mockutils/DynamicProxy.hpp: createRaiiMethodSwapper")],
 [], ["outcome of the failed call, history and behaviour afterwards, allocator state"])

prop("C18", "Verifying and naming methods never changes behaviour or history",
 "Inserting or removing verifications, passing or failing, of any kind, or merely naming a method without stubbing it, does not change the outcome of any call on any mock, fake or spying, nor which calls are recorded.",
 ["histories"],
 "all histories with and without verification phrases inserted at any points, including on methods never stubbed and inside stubbed actions",
 "Tests verify at the end, after all calls; what calls do after a verification is not examined.",
 ["fakeit/MockImpl.hpp", "fakeit/MethodMockingContext.hpp", "fakeit/RecordedMethodBody.hpp", "mockutils/DynamicProxy.hpp"],
 [("naming looks the method up without installing behaviour", "fakeit/MockImpl.hpp: MethodMockingContextBase")],
 [], ["call outcomes and history of a run compared with the same run without its verifications"])

prop("C19", "Failure messages state pattern, counts and calls, each value in its own form",
 "The default message of a failing verification states file and line, the expected pattern with its methods, argument conditions and repetitions as written, the required and the actual number of matches, and the calls considered in call order, of which the first fifty are listed. "
 "The message of an unexpected call states the call and whether the method was never stubbed or no stubbing accepted the arguments. Every argument and expected value is printed in the form of its own type, whatever other values do to the stream they are written to, and as '?' if the type has no form. "
 "Which calls, verifications and messages came before does not change the text.",
 ["histories", "inputs"],
 "all patterns built with +, * and comparison conditions, all argument kinds and values (including user types that leave the stream changed), call lists from none to beyond fifty, over all histories",
 "Tests compare a dozen fixed messages with one or two calls each.",
 ["fakeit/DefaultEventFormatter.hpp", "mockutils/Formatter.hpp", "mockutils/TuplePrinter.hpp", "fakeit/argument_matchers.hpp", "fakeit/Invocation.hpp", "fakeit/SequenceVerificationExpectation.hpp"],
 [("message text per kind of event", "fakeit/DefaultEventFormatter.hpp"), ("formatter selection by type", "mockutils/Formatter.hpp"), ("argument tuple printing", "mockutils/TuplePrinter.hpp")],
 [], ["text of the exception, text given to listeners by format()"])

prop("C20", "Argument conditions agree with the comparison operators of the argument types",
 "Each built-in argument condition (plain value, Eq, Gt, Ge, Lt, Le, Ne, ApproxEq, StrEq and its kin, Any, _) accepts an argument exactly when the corresponding comparison of the types, or of the character strings, holds, also for values that do not order such as not-a-number, for null pointers and for expected values of another type than the argument. "
 "A condition keeps its own copy of the expected value, so that later changes of the user's variable do not matter, and conditions on several arguments hold together, each at its own position.",
 ["inputs", "histories"],
 "all conditions on all argument kinds at all positions, alone and mixed, in stubbings and in verifications, expected values changed or destroyed after the phrase, over all histories",
 "Tests compare a few values per condition, in a verification directly after the call.",
 ["fakeit/argument_matchers.hpp", "fakeit/invocation_matchers.hpp", "fakeit/MatchersCollector.hpp"],
 [("one comparison per condition", "fakeit/argument_matchers.hpp"), ("conditions collected per position", "fakeit/MatchersCollector.hpp")],
 [], ["which stubbing answers a call, verdicts and counts of verifications"])

prop("C21", "Stubbing concerns exactly the named method, wherever it is in the class",
 "For every class with single inheritance and up to a thousand virtual methods, stubbing, calling, verifying and spying a virtual method or the destructor concerns exactly that method, whatever its position in the virtual table, the number of methods, the level of the hierarchy that declares or overrides it, the position of the destructor and the data members of the class; all other methods keep their behaviour and data members their values.",
 ["inputs", "histories"],
 "classes drawn from the seed (hierarchies of one to five levels, up to a thousand methods, overriding, overloading, destructor anywhere or absent, data members), methods at all positions, over histories of stubbings, spying, calls and verifications",
 "Tests contain a fixed set of hand-written classes and look at a few methods of each.",
 ["mockutils/VTUtils.hpp", "mockutils/VirtualOffestSelector.hpp", "mockutils/DynamicProxy.hpp", "mockutils/gcc/VirtualTable.hpp", "mockutils/FakeObject.hpp"],
 [("offset selector called through the member pointer", "mockutils/VirtualOffestSelector.hpp"), ("table of the fake", "mockutils/gcc/VirtualTable.hpp"), ("id per table entry", "mockutils/DynamicProxy.hpp: InvocationHandlers")],
 [], ["which action ran, outcome of calls of all methods, values of data members"])

prop("C22", "Each framework configuration turns a report into that framework's failure",
 "With each bundled configuration (standalone, Boost.Test, Catch, CUTE, doctest, GTest, mettle, MSTest, NUnit, QTest, tpunit), every failing verification and every unexpected call becomes exactly one failure of that framework, carrying the message of the formatter in force and, where the framework takes them, the file and line of the user's verification, and ends the test the way that framework does. "
 "Passing verifications and those read as a condition become none. This holds over any history of failures, also with custom formatters, adapters and listeners set and reset in between.",
 ["configurations", "histories"],
 "all bundled configurations, each with histories of stubbings, calls, passing and failing verifications, resets, formatter, adapter and listener changes",
 "The suite runs with one configuration; the others are at most compiled.",
 ["config/%s" % f for f in ("boost/BoostTestFakeit.hpp", "catch/CatchFakeit.hpp", "cute/CuteFakeit.hpp", "doctest/DoctestFakeit.hpp", "gtest/GTestFakeit.hpp", "mettle/MettleFakeit.hpp",
  "mstest/MsTestFakeit.hpp", "nunit/NUnitFakeit.hpp", "qtest/QTestFakeit.hpp", "standalone/StandaloneFakeit.hpp", "tpunit/TpUnitFakeit.hpp")] + ["fakeit/FakeitContext.hpp", "fakeit/DefaultFakeit.hpp"],
 [("one adapter class per framework", "config/gtest/GTestFakeit.hpp: GTestAdapter"), ("adapter and formatter in force", "fakeit/DefaultFakeit.hpp")],
 [], ["failures received by a stand-in of the framework, exception leaving the verification"])

prop("C23", "The single-header distributions equal the multi-header library",
 "Each header under single_header, and each one that generate_fakeit_single_header.py makes from the current sources, can be used in place of the headers under include with the same configuration: "
 "the same program compiles with either and behaves the same - the same calls answered, recorded and verified, the same reports, messages and framework failures.",
 ["programs", "configurations", "histories"], "all programs using either form, with every bundled configuration",
 "The suite uses the multi-header form only; no test includes a file of single_header.",
 ["single_header/%s/fakeit.hpp" % c for c in ("standalone", "boost", "catch", "cute", "doctest", "gtest", "mettle", "mstest", "nunit", "qtest", "tpunit")] + ["generate_fakeit_single_header.py", "fakeit/fakeit_root.hpp"],
 [("generated by inlining the includes", "generate_fakeit_single_header.py"), ("distributed files", "single_header/standalone/fakeit.hpp")],
 [], ["whether a program compiles, outcome of calls, verdicts, reports and messages"])

prop("C24", "The same program behaves the same under every supported compiler setting",
 "A program that uses the library compiles and behaves the same - calls answered, recorded, verified and reported alike, without memory errors - with GCC at -O0 and -O1 and with Clang, and for the language standards "
 "C++11, C++14 and C++17, although the library has separate code for older standards (ReturnAndSet and AlwaysReturnAndSet, detecting an exception in flight) and separate code for Clang and GCC (locating virtual methods and destructors).",
 ["programs", "histories", "configurations"], "all programs on all supported settings",
 "The suite is built once, with one compiler and standard; the code for the others is not even compiled.",
 ["fakeit/StubbingProgress.hpp", "fakeit/FakeitExceptions.hpp", "mockutils/VTUtils.hpp", "mockutils/gcc/VirtualTable.hpp", "mockutils/union_cast.hpp", "mockutils/Macros.hpp"],
 [("code for standards before C++17", "fakeit/StubbingProgress.hpp"), ("code for Clang", "mockutils/gcc/VirtualTable.hpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        if len(p["title"]) > 80: print('title too long', p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
